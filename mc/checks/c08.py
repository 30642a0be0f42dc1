"""C08  all ways of composing dimensions and types agree and stay flat"""
import itertools
import numpy as np
from .. import scale
from .. import terms as t
from ..core import Space, require, STAT

D, T = t.D, t.T
PROPERTY = 'C08'
TECHNIQUE = ('exhaustive enumeration of composition programs: every dimension sequence up to a length, every type of a '
             'closed set, every grouping and operator, compared with the flat model; every misplaced component '
             'at every position must be refused')
NOTE = ('Exhaustive for the stated lengths. The rule of one ellipsis per array is applied where datashapes are made '
        'from text or lists; the bare constructor does not check it and is not claimed to.')
BOUNDS = {'quick': 'dimension sequences of length 3 over 9, 4 over 4; 40 types; faults at every position of depth-3 terms over one atom',
          'thorough': 'dimension sequences of length 4 over 9, 6 over 3; faults at every position of depth-3 terms over three atoms'}

DIMS = [('F', 3), ('F', 0), ('F', 10 ** 10), ('V',), ('T', 'M'), ('T', 'N'), ('E', None), ('E', 'A'), ('E', 'B')]


def dim_forms(d):
    """python objects that denote the dimension"""
    out = [t.build_dim(d)]
    if d[0] == 'F':
        out.append(d[1])
    return out


def nell(dims):
    return sum(d[0] == 'E' for d in dims)


def expect(o, term, what):
    require(type(o) is D.DataShape, '%s: gives a %s', what, type(o))
    require(t.strict_eq(t.observe(o), term), '%s: gives %s instead of %s', what, ascii(t.observe(o)), ascii(term))
    require(not any(isinstance(p, D.DataShape) for p in o.parameters), '%s: not flat', what)


def run(case):
    dims, inner = case
    term = t.arr(inner, *dims)
    legal = nell(term[1]) <= 1
    n = 0
    ref = t.build(term)
    results = []
    text = t.text(term)

    def note(o, what):
        expect(o, term, '%s by %s' % (text, what))
        results.append(o)
    m_forms = [('datashape', t.build(inner))]
    if not inner[1]:
        m_forms.append(('measure', t.build_measure(inner[2])))
    for mname, m in m_forms:
        for k, ds in enumerate(itertools.product(*[dim_forms(d) for d in dims])):
            ds = list(ds)
            note(T.DataShape(*(ds + [m])), 'constructor on a ' + mname)
            if legal:
                note(D.dshape(ds + [m]), 'list on a ' + mname) if ds else None
                note(D.dshape(tuple(ds) + (m,)), 'tuple on a ' + mname) if ds else None
            # right to left multiplication
            o = m
            for d in reversed(ds):
                o = d * o
            if ds:
                note(o, 'multiplication from the right on a ' + mname)
        # every split: constructor of a prefix around a composed rest
        objs = [t.build_dim(d) for d in dims]
        for i in range(len(objs)):
            rest = m
            for d in reversed(objs[i:]):
                rest = d * rest
            note(T.DataShape(*(objs[:i] + [rest])), 'constructor around a product, split %d' % i)
            o = rest
            for d in reversed(objs[:i]):
                o = T.DataShape(d, o)
            note(o, 'nested constructors, split %d' % i)
            if legal and i:
                note(D.dshape(objs[:i] + [rest]), 'list around a product, split %d' % i)
        # text operands
        o = t.text(inner)
        for d in reversed(objs):
            o = d * o
        if objs:
            note(o, 'multiplication with text')
    if legal:
        o = D.dshape(text)
        note(o, 'text')
        require(D.dshape(o) is o, 'dshape of a datashape is not itself')
        note(D.dshapes(text, o)[0], 'dshapes')
        note(D.dshapes(text, o)[1], 'dshapes')
    else:
        for what, f in [('text', lambda: D.dshape(text)),
                        ('list', lambda: D.dshape([t.build_dim(d) for d in dims] + [t.build(inner)]))]:
            try:
                o = f()
            except TypeError:
                continue
            require(False, '%s by %s: more than one ellipsis accepted', text, what)
    for a in results:
        require(a == ref and hash(a) == hash(ref) and str(a) == str(ref), '%s: compositions differ', text)
    STAT.add('states', 1)
    STAT.add('transitions', len(results))
    STAT.add('traces', len(results))
    return '%d dims%s' % (len(term[1]), '' if legal else ' refused')


INNERS = [t.I32, t.STR, t.ds(('tv', 'T')), t.opt(t.I32), t.rec(('a', t.arr(t.I32, t.V))), t.tup(t.I32, t.STR), t.rec(),
          t.fn([t.arr(t.I32, t.F3)], t.I32), t.mp(t.STR, t.I32), t.ds(('units', 'm', t.F64)), t.ds(('json',)), t.ds(('null',)),
          t.ds(('cat', ('a', 'b'), t.STR[2], False)), t.ds(('dt', 'UTC')), t.ds(('dec', 7, 2)),
          t.arr(t.I32, t.F3), t.arr(t.F64, t.V, ('T', 'M')), t.arr(t.STR, t.E), t.arr(t.opt(t.I32), t.EA, t.V),
          t.opt(t.arr(t.I32, t.V)), t.rec(('a', t.arr(t.I32, t.E))), t.tup(t.arr(t.I32, t.EA), t.arr(t.I32, t.EA))]


# ---------------------------------------------------------------- faults
class Err(Exception):
    pass


def fault_sites(term, path=()):
    """every position where a type belongs: paths to sub-datashapes"""
    yield path
    for i, c in enumerate(t.children(term[2])):
        for p in fault_sites(c, path + (i,)):
            yield p


FAULTS = {
    'dimension as type: Fixed': lambda: T.Fixed(3),
    'dimension as type: Var': lambda: T.Var(),
    'dimension as type: Ellipsis': lambda: T.Ellipsis(),
    'dimension as type: named Ellipsis': lambda: T.Ellipsis(T.TypeVar('A')),
    'integer as type': lambda: 3,
    'None': lambda: None,
    'float': lambda: 1.5,
    'dict': lambda: {},
    'numpy dtype': lambda: np.dtype('int32'),
    'class': lambda: T.CType,
}
TEXT_FAULTS = ['var', '3', '...', 'A...', '3 * var', '3 * 3', 'var * ...', 'int32 * int32', 'int32 * 3', '?var', '? ? int32',
               '... * ... * int32', '... * A... * int32', '... * 3 * ... * int32', 'A... * A... * int32', '3 * {a: ... * 2 * ... * int32}',
               '{} * int32', '(int32,) * int32', 'string * string', '3 int32', 'int32 string', "option['", '?', '']


def rebuild(term, path, leaf):
    """build the term through constructors with the object `leaf` in place of the datashape at `path`"""
    if not path:
        return leaf
    m, i = term[2], path[0]
    ch = [t.build(c) for c in t.children(m)]
    ch[i] = rebuild(t.children(m)[i], path[1:], leaf)
    k = m[0]
    if k == 'opt':
        mm = T.Option(ch[0])
    elif k == 'rec':
        mm = T.Record(list(zip([n for n, _ in m[1]], ch)))
    elif k == 'tup':
        mm = T.Tuple(ch)
    elif k == 'fn':
        mm = T.Function(*ch)
    elif k == 'map':
        mm = T.Map(*ch)
    else:
        mm = T.Units(m[1], ch[0])
    return T.DataShape(*([t.build_dim(d) for d in term[1]] + [mm]))


def text_with(term, path, leaf):
    if not path:
        return leaf
    m, i = term[2], path[0]
    ch = [t.text(c) for c in t.children(m)]
    ch[i] = text_with(t.children(m)[i], path[1:], leaf)
    k = m[0]
    if k == 'opt':
        s = 'option[%s]' % ch[0]
    elif k == 'rec':
        s = '{%s}' % ', '.join('%s: %s' % (t.quote(n), c) for (n, _), c in zip(m[1], ch))
    elif k == 'tup':
        s = '(%s)' % ', '.join(ch)
    elif k == 'fn':
        s = '(%s) -> %s' % (', '.join(ch[:-1]), ch[-1])
    elif k == 'map':
        s = 'map[%s]' % ', '.join(ch)
    else:
        s = 'units[%s, %s]' % (t.quote(m[1]), ch[0])
    return ' * '.join([t.text_dim(d) for d in term[1]] + [s])


def run_fault(term):
    n = 0
    for path in fault_sites(term):
        for name, f in FAULTS.items():
            n += 1
            if not path:
                if term[1]:
                    try:
                        o = T.DataShape(*([t.build_dim(d) for d in term[1]] + [f()]))
                    except TypeError:
                        continue
                    require(False, '%s under dimensions %s accepted: %r', name, term[1], o)
                continue
            if name == 'None' and kind_at(term, path) == 'units':
                continue                              # the documented default
            try:
                o = rebuild(term, path, f())
            except TypeError:
                continue
            require(False, '%s in %s at %s accepted: %r', name, ascii(t.text(term)), path, o)
        for s in TEXT_FAULTS:
            n += 1
            x = text_with(term, path, s) if path else ' * '.join([t.text_dim(d) for d in term[1]] + [s])
            if s == '' and allowed_empty(term, path):
                continue
            try:
                o = D.dshape(x)
            except (TypeError, SyntaxError):
                continue
            require(False, 'ill-formed text %s accepted: %r', ascii(x), o)
    STAT.add('states', 1)
    STAT.add('transitions', n)
    STAT.add('traces', n)
    return term[2][0]


def kind_at(term, path):
    """kind of the measure directly around the position"""
    for i in path[:-1]:
        term = t.children(term[2])[i]
    return term[2][0]


def allowed_empty(term, path):
    """leaving out the last item of a tuple or argument list is a trailing comma or an empty list"""
    if not path:
        return False
    for i in path[:-1]:
        term = t.children(term[2])[i]
    k, n = term[2][0], len(t.children(term[2]))
    return k == 'tup' and path[-1] == n - 1 or k == 'fn' and path[-1] == n - 2


# misplaced components in the list of dimensions
BAD_DIMS = [lambda: T.int32, lambda: T.String(), lambda: T.Record([('a', T.int32)]), lambda: T.Tuple([T.int32]),
            lambda: T.Option(T.int32), lambda: T.Function(T.int32), lambda: T.Map(T.string, T.int32), lambda: T.Null(),
            lambda: T.JSON(), lambda: T.Date(), lambda: T.DateTime(), lambda: T.Decimal(7), lambda: T.Units('m'),
            lambda: T.TimeDelta(), lambda: T.Bytes(), lambda: T.Categorical(['a']), lambda: D.dshape('int32'),
            lambda: D.dshape('3 * int32'), lambda: T.Time(), lambda: T.void, lambda: D.dshape('var * T')]
MORE_BAD = [lambda: -1, lambda: np.int64(-3), lambda: None, lambda: 1.0, lambda: 'var', lambda: '3', lambda: [], lambda: object()]


def run_baddim(case):
    dims, k, pos = case
    bad = (BAD_DIMS + MORE_BAD)[k]()
    objs = [t.build_dim(d) for d in dims]
    objs.insert(pos, bad)
    tries = [('constructor', lambda: T.DataShape(*(objs + [T.int32]))), ('list', lambda: D.dshape(objs + [T.int32])),
             ('nested', lambda: T.DataShape(*(objs + [D.dshape('2 * float64')])))]
    if not isinstance(bad, (type(None), float, list)) and type(bad) is not object:
        def mul():
            o = T.int32
            for d in reversed(objs):
                o = d * o
            return o
        if not isinstance(bad, np.integer):
            tries.append(('multiplication', mul))
    for what, f in tries:
        try:
            o = f()
        except (TypeError, ValueError, SyntaxError):
            continue
        require(False, '%r as dimension %d among %s accepted by %s: %r', bad, pos, dims, what, o)
    return 'refused'


OPERANDS = {
    'Fixed': lambda: T.Fixed(3), 'Var': lambda: T.Var(), 'TypeVar': lambda: T.TypeVar('M'), 'Ellipsis': lambda: T.Ellipsis(), 'Ellipsis A': lambda: T.Ellipsis(T.TypeVar('A')),
    'int': lambda: 4, 'numpy int': lambda: np.int64(4), 'int32': lambda: T.int32, 'string': lambda: T.string, 'record': lambda: T.Record([('a', T.int32)]),
    'option': lambda: T.Option(T.int32), 'measure': lambda: D.dshape('int32'), 'array': lambda: D.dshape('3 * int32'), 'array of ellipsis': lambda: D.dshape('... * int32'),
    'text': lambda: 'int32', 'text array': lambda: '3 * int32', 'text ellipsis': lambda: '... * 3 * int32', 'text dimension': lambda: 'var'}
DIMENSIONS = {'Fixed': ('F', 3), 'Var': ('V',), 'TypeVar': ('T', 'M'), 'Ellipsis': ('E', None), 'Ellipsis A': ('E', 'A'), 'int': ('F', 4), 'numpy int': ('F', 4)}
TYPES = {'int32': t.I32, 'string': t.STR, 'record': t.rec(('a', t.I32)), 'option': t.opt(t.I32), 'measure': t.I32, 'array': t.arr(t.I32, t.F3), 'array of ellipsis': t.arr(t.I32, t.E), 'text': t.I32,
         'text array': t.arr(t.I32, t.F3), 'text ellipsis': t.arr(t.I32, t.E, t.F3), 'TypeVar': t.ds(('tv', 'M'))}


def run_product(case):
    """products of any two or three operands: the datashape of a dimension and a type, or refused"""
    names, left = case
    xs = [OPERANDS[n]() for n in names]
    # what each partial product may be: a term, a dimension, or nothing
    def mul(a, b):
        if a is None or b is None:
            return None
        return t.arr(b, DIMENSIONS[a]) if a in DIMENSIONS and isinstance(b, tuple) else None
    known = [n if n in DIMENSIONS else TYPES.get(n) for n in names]
    last = TYPES.get(names[-1])
    if left or len(names) == 2:
        want = mul(names[0], last) if len(names) == 2 else (mul(names[0], None) if names[1] not in TYPES else None)
    else:
        want = mul(names[0], mul(names[1], last))
    if left and len(names) == 3 and names[1] == 'TypeVar':
        return 'unspecified'
    try:
        if len(xs) == 2:
            o = xs[0] * xs[1]
        elif left:
            o = (xs[0] * xs[1]) * xs[2]
        else:
            o = xs[0] * (xs[1] * xs[2])
    except (TypeError, SyntaxError, ValueError):
        require(want is None, 'the product of %s is refused', names)
        return 'refused'
    require(isinstance(o, T.Mono), 'the product of %s is %r', names, o)
    require(want is not None, 'the product of %s is %s', names, o)
    expect(o, want, 'product of %s' % (names,))
    return 'product'


def products():
    out = []
    mono = lambda n: n not in ('int', 'numpy int') and not n.startswith('text')
    for a, b in itertools.product(OPERANDS, repeat=2):
        if (mono(a) or mono(b)) and 'numpy int' not in (a, b):
            out.append(((a, b), False))
    for a, b, c in itertools.product(OPERANDS, repeat=3):
        if 'numpy int' in (a, b, c):
            continue
        if mono(b) or mono(c):
            out.append(((a, b, c), False))
        if mono(a) or mono(b):
            out.append(((a, b, c), True))
    return out


OTHER = [None, 3, 1.5, object(), {}, {'a': 'int32'}, int, b'int32', set(), [], (), [T.int32, T.int32], [3], ['var'],
         [D.var], [None], [[3, T.int32]], [3.0, T.int32]]


def run_other(i):
    try:
        o = D.dshape(OTHER[i])
    except (TypeError, ValueError, SyntaxError):
        return 'refused'
    require(False, 'dshape(%r) gives %r', OTHER[i], o)


def run_growth(case):
    """many dimensions, grouped at every place; a component that is no dimension at every place"""
    name, n, i = case
    terms = [scale.term(case)]
    cnt = 0
    for term in terms:
        dims = [t.build_dim(d) for d in term[1]]
        m = t.build_measure(term[2])
        ref = t.build(term)
        res = [T.DataShape(*(dims + [m])), D.dshape(dims + [m]), D.dshape(t.text(term))]
        rest, rests = m, [m]
        for d in reversed(dims):
            rest = d * rest
            rests.append(rest)
        rests.reverse()                                # rests[k] has dims[k:]
        res.append(rest)
        for k in scale.positions(n, 0, 40) if i is None else (i,):
            res.append(T.DataShape(*(dims[:k] + [rests[k]])))
            if k:
                res.append(D.dshape(dims[:k] + [rests[k]]))
                if n < 40 or k in (1, n // 2, n - 1):
                    o = rests[k]
                    for d in reversed(dims[:k]):
                        o = T.DataShape(d, o)
                    res.append(o)
        for o in res:
            expect(o, term, '%d dimensions' % n)
            require(o == ref and hash(o) == hash(ref) and str(o) == str(ref), '%s: compositions differ', t.text(term))
        cnt += len(res)
    for k in scale.positions(n, 0, 40) if i is None else ():
        for j in (0, 2, 16, len(BAD_DIMS)):
            bad = (BAD_DIMS + MORE_BAD)[j]()
            objs = dims[:k] + [bad] + dims[k:]
            for what, f in (('constructor', lambda: T.DataShape(*(objs + [T.int32]))), ('list', lambda: D.dshape(objs + [T.int32])),
                            ('nested', lambda: T.DataShape(*(objs + [3 * T.int32])))):
                try:
                    f()
                except (TypeError, ValueError, SyntaxError):
                    cnt += 1
                    continue
                require(False, '%r accepted by %s as dimension %d of %d', bad, what, k, n)
    # a second ellipsis at every distance from the first
    for k in scale.positions(n, 0, 12) if i is None else ():
        objs = dims[:k] + [T.Ellipsis()] + dims[k:]
        D.dshape(objs + [T.int32])
        for j in range(len(objs) + 1) if n < 20 else (0, k, len(objs)):
            two = objs[:j] + [T.Ellipsis(T.TypeVar('A'))] + objs[j:]
            for what, f in (('list', lambda: D.dshape(two + [T.int32])), ('text', lambda: D.dshape(str(T.DataShape(*(two + [T.int32])))))):
                try:
                    f()
                except TypeError:
                    cnt += 1
                    continue
                require(False, '%s: two ellipses among %d dimensions accepted', what, n)
    STAT.add('states', len(terms))
    STAT.add('transitions', cnt)
    STAT.add('traces', cnt)
    return name


def spaces(tier):
    q = tier == 'quick'
    cases = []
    for n in range(0, 4 if q else 5):
        for ds in itertools.product(DIMS, repeat=n):
            for x in (INNERS if n <= (2 if q else 3) else INNERS[:1] + INNERS[3:5] + INNERS[15:19]):
                cases.append((ds, x))
    few = [('F', 2), ('V',), ('E', None)]
    for n in range(4, 5 if q else 7):
        for ds in itertools.product(few, repeat=n):
            for x in (t.I32, t.arr(t.opt(t.I32), t.V)):
                cases.append((ds, x))
    cases = list(dict.fromkeys(cases))
    ctxs = t.contexts()
    terms, _ = t.bfs([t.I32] if q else [t.I32, t.STR, t.ds(('tv', 'T'))], ctxs, 3)
    bad = [(ds, k, p) for n in range(0, 3) for ds in itertools.product([('F', 3), ('V',), ('E', None)], repeat=n)
           for k in range(len(BAD_DIMS) + len(MORE_BAD)) for p in range(n + 1)]
    return [
        Space('compositions', cases, run, None, None, lambda c: t.text(t.arr(c[1], *c[0]))),
        Space('misplaced dimensions', bad, run_baddim, len(bad), len(bad), repr),
        Space('products', products(), run_product, None, None, repr, 'every product of two and of three operands of every kind, both groupings'),
        Space('not datashapes', list(range(len(OTHER))), run_other, len(OTHER), 0, lambda i: repr(OTHER[i])),
        Space('growth', scale.cases(tier, only=('dimensions', 'kinds of dimensions')), run_growth, None, None, scale.show,
              'many dimensions, grouped at every place, with something wrong at every place'),
        Space('growth faults', [c for c in scale.cases(tier, limit=17 if q else 65, without=('arguments',) if q else ()) if c[2] is None and not (c[0] in scale.DEEP and c[1] > 9)], lambda c: run_fault(scale.term(c)), None, None, scale.show),
        Space('faults', terms, run_fault, None, None, lambda x: ascii(t.text(x)),
              'every ill-formed replacement of every sub-datashape, through constructors and through text'),
    ]
