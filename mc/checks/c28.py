"""C28  types of classes defined by users are values like the built-in ones"""
import itertools
from .. import terms as t
from .. import usertypes as U
from ..core import Space, require, STAT
from . import c01, c06, c07, c11, c18, c19
from .c21 import in_child
from datashape import parser, type_symbol_table as tst
from datashape.error import DataShapeSyntaxError

D, T = t.D, t.T
PROPERTY = 'C28'
TECHNIQUE = ('exhaustive enumeration of type terms, up to a depth, that contain types and dimensions of thirteen classes defined outside the library (without parameters, '
             'with named and with positional ones, derived from one another and from a built-in class), of all pairs of them and of all misplacements; every outcome is '
             'compared with the term model used for built-in types')
NOTE = ('Exhaustive within the bounds. Classes derive from Unit, Mono or Date and keep their parameters in slots or leave them to Mono; indexing and dimension predicates, which '
        'are about the built-in dimensions, are left open for dimensions of other classes.')
BOUNDS = {'quick': 'all terms of depth 1 over 75 user types and arrays with user dimensions and of depth 2 over every third, all pairs of 1200 of depth 1, all histories of 2 copying operations on the 75',
          'thorough': 'all terms of depth 2 over the 75 and of depth 3 over every 25th, all pairs of 2400, all histories of 3 copying operations'}


def my(name, *args):
    return ('my', name, args)


def uterms():
    u = [t.ds(my(*x)) for x in (('Plain',), ('Other',), ('Nearer',), ('Day',), ('Size', 1), ('Size', 3), ('Heir', 1), ('Heir', 3), ('Label', 'x', 0), ('Label', 'x', 3), ('Label', "a'b\n", 0), ('Many',))]
    for x in (t.I32, t.arr(t.I32, t.V), t.rec(('a', t.STR)), t.ds(my('Plain'))):
        u += [t.ds(my('Box', x)), t.ds(my('Many', x)), t.ds(my('Pair', x, t.I32)), t.ds(my('Pair', t.I32, x))]
    u += [t.ds(my('Many', t.I32, t.STR, t.arr(t.F64, t.F3))), t.ds(my('Many', 1, 'x', t.I32)), t.ds(my('Pair', t.ds(my('Size', 3)), t.ds(my('Size', 3))))]
    return list(dict.fromkeys(u))


UDIMS = [my('Ring'), my('Block', 3, 'C'), my('Block', 3, 'F'), my('Block', 4, 'C'), my('Stack'), my('Stack', 1, 2), my('Stack', 2, 1), my('Stack', (2, 1)), my('Stack', ())]


def contexts():
    out = [f for _, f in t.contexts()]
    for d in UDIMS:
        out.append(lambda x, d=d: ('D', (d,) + x[1], x[2]))
    out.append(lambda x: t.ds(my('Box', x)))
    out.append(lambda x: t.ds(my('Pair', x, t.STR)))
    out.append(lambda x: t.ds(my('Many', t.STR, x)))
    out.append(lambda x: t.ds(my('Many', x)))
    return out


def closure(depth, step=1):
    base = uterms() + [('D', (d,), x) for d in UDIMS for x in (('ct', 'int32'), ('rec', (('a', t.I32),)))] + [('D', (d, ('F', 3), e), ('ct', 'int32')) for d in UDIMS for e in UDIMS[:3]]
    out = list(dict.fromkeys(base))[::step]
    edge = out
    for _ in range(depth):
        nxt = [f(x) for f in contexts() for x in edge]
        edge = [x for x in dict.fromkeys(nxt) if x is not None]
        out = list(dict.fromkeys(out + edge))
    return out


TABLE = []


def enter():
    if not TABLE:
        U.enter(tst.sym)
        TABLE.append(tst.TypeSymbolTable())
        U.enter(TABLE[0])


def special(term):
    return any(d[0] == 'my' for d in t.dims_anywhere(term))


def has_mine(term):
    return special(term) or any(s[2][0] == 'my' for s in t.subterms(term))


def readable(term):
    """the library does not read dimensions with arguments"""
    return not any(d[0] == 'my' and d[2] for d in t.dims_anywhere(term))


def run(term):
    enter()
    if readable(term):
        kind = c01.roundtrip(term, c01.FEW)
        c06.run_routes(term)
        x = parser.parse(t.text(term), TABLE[0])
        require(t.strict_eq(t.observe(x), term) and x == t.build(term) and hash(x) == hash(t.build(term)), 'with another table %s reads as %r', ascii(t.text(term)), x)
    else:
        kind = 'not readable'
        objs = [(r, c06.make(term, r)) for r in c06.ROUTES if r != 'text' and not (r == 'measure' and term[1])]
        for (ra, a), (rb, b) in itertools.product(objs, repeat=2):
            c06.pair(a, b, True, '%s by %s and by %s' % (ascii(t.text(term)), ra, rb))
    run.history(term)
    if not any(d[0] == 'my' for d in term[1]):
        c11.run(term)
    if not special(term):
        c18.run(term)
    else:
        for p, mp in [(x[1], x[2]) for x in c18.PREDS[:6]]:
            got = [t.observe(x) if not isinstance(x, (T.Fixed, T.Var, T.Ellipsis)) else t.obs_dim(x) for x in D.util.collect(p, t.build(term))]
            require(len(got) == len(c18.collected(mp, term)), 'collecting in %s finds %s', ascii(t.text(term)), got)
    o = t.build(term)
    s = ascii(t.text(term))
    # parts
    require(str(o) == ' * '.join(map(str, o)), '%s prints %s', s, ascii(str(o)))
    for sub in t.subterms(term):
        for d in sub[1]:
            require(d[0] != 'my' or t.text_dim(d) in str(o), '%s prints %s', s, ascii(str(o)))
    require(list(o) == [t.build_dim(d) for d in term[1]] + [t.build_measure(term[2])] and o.measure == o[-1] and o.shape == tuple(o[:-1]), 'the parts of %s are %r', s, list(o))
    for sub in t.subterms(term):
        if sub[2][0] == 'my':
            m = t.build_measure(sub[2])
            require(m == t.build_measure(sub[2]) and not m != t.build_measure(sub[2]) and m.parameters == tuple(t.build(a) if t.is_term(a) else a for a in sub[2][2]), 'parameters of %r', m)
            require(m.info() == (t.USER[sub[2][1]], m.parameters), 'info of %r', m)
            require(m.measure is m and m.shape == () and len(m) == 1 and m[0] is m and m.subarray(0) is m, '%r is not a type of its own', m)
    # what is asked of all types
    for name in ('isscalar', 'isrecord', 'iscollection', 'istabular', 'isnumeric', 'isreal', 'isboolean', 'isdatelike'):
        r = getattr(D, name)(o)
        require(r in (True, False), '%s(%s) is %r', name, s, r)
        m = term[2][1][2] if term[2][0] == 'opt' and not term[2][1][1] else term[2]
        if m[0] == 'my' and not term[1] and m[1] != 'Day':
            want = name == 'isscalar' and issubclass(t.USER[m[1]], T.Unit)
            require(bool(r) is want, '%s(%s) is %r', name, s, r)
            require(bool(getattr(D, name)(o.measure)) is want, '%s of the measure of %s is not %s', name, s, want)
    m = term[2]
    if m[0] == 'my' and m[1] != 'Day' or special(term) and term[1] and any(d[0] == 'my' for d in term[1]):
        for f in (T.to_numpy, lambda y: T.to_numpy_dtype(y)):
            if f is not T.to_numpy and (m[0] != 'my' or m[1] == 'Day'):
                continue
            try:
                r = f(o)
            except (TypeError, NotImplementedError):
                continue
            require(False, '%s converts to %r', s, r)
    for v in (1, 'x', None, [1], {'a': 1}):
        if m[0] == 'my' and m[1] != 'Day' and not term[1]:
            require(not D.validate(o, v), 'validate(%s, %r)', s, v)
    require(D.issubschema(o, t.build(term)) is True, 'issubschema(%s, the same)', s)
    require(t.strict_eq(t.observe(o), term), '%s changed', s)
    STAT.add('transitions', 30)
    return kind


PAIRS, OBJS = [], []


def run_pairs(i):
    a = OBJS[i]
    for j in range(len(PAIRS)):
        b = OBJS[j]
        same = PAIRS[i] == PAIRS[j]
        c06.pair(a, b, same, '%s and %s' % (ascii(t.text(PAIRS[i])), ascii(t.text(PAIRS[j]))))
        c19.check(PAIRS[i], PAIRS[j], a, b, c19.SOME[0])
        if not PAIRS[i][1] and not PAIRS[j][1]:
            c06.pair(a.measure, b.measure, same, 'the measures %s and %s' % (ascii(t.text(PAIRS[i])), ascii(t.text(PAIRS[j]))))
        if not same:
            require(not D.issubschema(a, b), 'issubschema(%s, %s)', a, b)
    STAT.add('traces', 2 * len(PAIRS))
    return 'row'


def run_misplaced(case):
    """a type where a dimension belongs and the other way round"""
    kind, i, j = case
    enter()
    u, d = t.build(uterms()[i]).measure, t.build_dim(UDIMS[j])
    builds = {
        'type as dimension': [lambda: T.DataShape(u, T.int32), lambda: u * T.int32, lambda: T.DataShape(3, u, T.int32), lambda: D.dshape([u, T.int32]), lambda: D.dshape([3, u, T.var, u]),
                              lambda: T.DataShape(u, t.build(t.arr(t.I32, t.F3)))],
        'dimension as type': [lambda: T.DataShape(d), lambda: T.DataShape(3, d), lambda: D.dshape([3, d]), lambda: 3 * d, lambda: d * d, lambda: T.Option(d), lambda: T.Record([('a', d)]),
                              lambda: T.Map(d, u), lambda: T.Map(u, d), lambda: T.Function(u, d), lambda: T.Var() * d, lambda: T.Tuple([d]), lambda: u * d],
    }[kind]
    for k, f in enumerate(builds):
        try:
            r = f()
        except TypeError:
            continue
        require(False, '%s: number %d with %r and %r gives %r', kind, k, u, d, r)
    plain = not UDIMS[j][2]
    texts = {'type as dimension': ['%s * int32' % u, '3 * %s * int32' % u, '{a: %s * int32}' % u],
             'dimension as type': ['%s' % d, '3 * %s' % d, '{a: %s}' % d, '?%s' % d, '(%s)' % d, '%s * %s' % (d, d)]}[kind]
    for s in texts:
        try:
            r = D.dshape(s)
        except (DataShapeSyntaxError, TypeError) + (() if plain else (NotImplementedError,)):
            continue
        require(False, '%s: %s reads as %r', kind, ascii(s), r)
    good = {'type as dimension': [d * u, T.DataShape(d, u), D.dshape([d, u]), D.dshape('%s * %s' % (d, u)) if plain else d * u, T.DataShape(d, T.DataShape(u))],
            'dimension as type': [3 * u, T.DataShape(3, u), D.dshape('3 * %s' % u), T.Fixed(3) * u]}[kind]
    for x in good:
        require(x == good[0] and hash(x) == hash(good[0]) and t.strict_eq(t.observe(x), t.observe(good[0])), 'well-formed %r and %r differ', x, good[0])
    STAT.add('transitions', len(builds) + len(texts) + len(good))
    STAT.add('traces', len(builds) + len(texts))
    return kind


ELL = [t.arr(t.I32, t.E, t.V, t.E), t.arr(t.I32, t.E, t.EA), ]


def run_ellipses(case):
    """several ellipses in one array inside types of users' classes are refused where their parameters are types"""
    i, j = case
    enter()
    f = [lambda x: t.ds(my('Box', x)), lambda x: t.ds(my('Pair', x, t.I32)), lambda x: t.ds(my('Pair', t.I32, x)), lambda x: t.ds(my('Many', x, t.STR)), lambda x: t.rec(('a', t.ds(my('Box', x)))),
         lambda x: t.ds(my('Box', t.tup(x)))][i]
    for w in (lambda x: x, t.opt, lambda x: t.arr(x, t.V), lambda x: t.tup(x), lambda x: t.fn([x], t.I32)):
        term = w(f(ELL[j]))
        try:
            r = D.dshape(t.text(term))
        except TypeError:
            continue
        require(False, '%s reads as %r', ascii(t.text(term)), r)
    return 'refused'


def run_defined(case):
    """a class defined later is named in the registry of types and nowhere else"""
    name, taken = case

    def go():
        from ..core import Violation
        try:
            before = dict(T.Type._registry) if hasattr(T.Type, '_registry') else {}
            sym = {s: dict(getattr(tst.sym, s)) for s in ('dtype', 'dtype_constr', 'dim', 'dim_constr')}
            cls = type(T.Mono)(name, (T.Unit,), {'cls': T.MEASURE, '__slots__': ('n',), '__init__': lambda self, n=0: setattr(self, 'n', n)})
            require(T.Type.lookup_type(name) is cls, 'the class %s is not registered', name)
            hidden = type(T.Mono)(name + 'Abstract', (T.Unit,), {'cls': T.MEASURE, '__slots__': (), 'abstract': True})
            try:
                T.Type.lookup_type(name + 'Abstract')
            except KeyError:
                pass
            else:
                require(False, 'an abstract class is registered')
            for k, v in before.items():
                require(k == name or T.Type.lookup_type(k) is v, 'defining %s changed %s', name, k)
            require(sym == {s: dict(getattr(tst.sym, s)) for s in sym}, 'defining %s changed the symbol table', name)
            a, b = cls(3), cls(3)
            require(a == b and hash(a) == hash(b) and a != cls(4) and 2 * a == T.DataShape(2, b) and str(a) == name.lower(), 'types of %s', name)
            require(hidden() == hidden() and hidden() != a, 'types of an abstract class')
            try:
                T.Type.register(name, a)
            except TypeError:
                pass
            else:
                require(False, 'the name of the class %s can be registered again', name)
            try:
                T.DataShape(3, T.int32, name=name)
            except TypeError:
                pass
            else:
                require(False, 'the name of the class %s can be given to a datashape', name)
            require(T.Type.lookup_type(name) is cls, 'the class %s is not registered any more', name)
        except Violation as e:
            return str(e)
        except Exception:
            import traceback
            return 'unexpected ' + traceback.format_exc()
    r = in_child(go)
    require(not r, '%s', r)
    return 'ok'


def spaces(tier):
    q = tier == 'quick'
    enter()
    run.history = c07.histories(1)
    terms = list(dict.fromkeys(closure(1) + closure(2, 3) if q else closure(2) + closure(3, 25)))
    deep = closure(0)
    mid = closure(1)
    del PAIRS[:], OBJS[:]
    PAIRS.extend(mid[::2] if q else mid)
    OBJS.extend(map(t.build, PAIRS))
    mis = [(k, i, j) for k in ('type as dimension', 'dimension as type') for i in range(len(uterms())) for j in range(len(UDIMS))]
    ell = [(i, j) for i in range(6) for j in range(len(ELL))]
    names = [(n, 0) for n in ('Fresh', 'fresh', 'int33', 'Money')]
    h = c07.histories(2 if q else 3)
    return [
        Space('terms', terms, run, len(terms), None, lambda x: ascii(t.text(x))),
        Space('histories', deep, h, len(deep), None, lambda x: ascii(t.text(x))),
        Space('pairs', list(range(len(PAIRS))), run_pairs, len(PAIRS), None, lambda i: ascii(t.text(PAIRS[i]))),
        Space('misplaced', mis, run_misplaced, len(mis), None, repr),
        Space('ellipses', ell, run_ellipses, len(ell), None, repr),
        Space('classes', names, run_defined, len(names), None, repr),
    ]
