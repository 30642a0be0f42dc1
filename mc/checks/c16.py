"""C16  validation accepts exactly the values of a schema"""
import itertools
import datetime as dtm
import numpy as np
from .. import scale
from .. import variants
from .. import terms as t
from ..core import Space, require, STAT

D, T = t.D, t.T
PROPERTY = 'C16'
TECHNIQUE = ('exhaustive enumeration of schemas and values up to a depth, all pairs, and of every single change at every position '
             'of values made to match; each verdict is compared with a model of validation')
NOTE = ('Exhaustive within the bounds. Schemas are made of native types, text, dates and times, records, fixed and variable '
        'dimensions and alternatives; a Python number has the one native type of its class.')
BOUNDS = {'quick': '300 schemas of depth <= 2 times 900 values of depth <= 2; every one-position change of matching values of depth 3',
          'thorough': '900 schemas times 2500 values; every two-position change'}

LEAVES = {
    'None': (None, ()), 'True': (True, ('bool',)), '1': (1, ('int64',)), '0': (0, ('int64',)), '2.5': (2.5, ('float64',)), 'nan': (float('nan'), ('float64',)),
    'x': ('x', ('string',)), 'empty': ('', ('string',)), "'1'": ('1', ('string',)), 'date': (dtm.date(2014, 1, 2), ('date',)),
    'datetime': (dtm.datetime(2014, 1, 2), ('date', 'datetime')), 'time': (dtm.time(1, 2), ('time',)), 'i32': (np.int32(1), ('int32',)),
    'i64': (np.int64(1), ('int64',)), 'u8': (np.uint8(1), ('uint8',)), 'f32': (np.float32(1), ('float32',)), 'f64': (np.float64(1), ('float64',)),
    'npbool': (np.bool_(True), ('bool',)), 'bytes': (b'x', ()), '1j': (1j, ()), 'obj': (object, ()),
}
SCALAR = {'string': t.STR[2], 'date': ('date',), 'datetime': ('dt', None), 'time': ('time', None)}
for _n in ('bool', 'int8', 'int32', 'int64', 'uint8', 'float32', 'float64'):
    SCALAR[_n] = ('ct', _n)
NAME = {v: k for k, v in SCALAR.items()}


def val(c):
    k = c[0]
    if k == 'v':
        return LEAVES[c[1]][0]
    if k == 'l':
        return [val(x) for x in c[1]]
    if k == 't':
        return tuple(val(x) for x in c[1])
    if k == 'd':
        return {n: val(x) for n, x in c[1]}


def valid(term, c):
    dims, m = term[1], term[2]
    if dims:
        if c[0] not in 'lt':
            return False
        d = dims[0]
        if d[0] == 'F' and len(c[1]) != d[1]:
            return False
        rest = ('D', dims[1:], m)
        return all(valid(rest, x) for x in c[1])
    if m[0] == 'rec':
        if c[0] == 'd':
            kv = dict(c[1])
            return all(valid(x, kv.get(n, ('v', 'None'))) for n, x in m[1])
        if c[0] in 'lt':
            return len(c[1]) == len(m[1]) and all(valid(x, y) for (_, x), y in zip(m[1], c[1]))
        return False
    if c[0] != 'v':
        return False
    return NAME[m] in LEAVES[c[1]][1]


def show(case):
    return 'validate(%s, %r)' % (t.text(case[0]), val(case[1]))


def forms(term):
    ds = t.build(term)
    out = [ds, t.text(term)]
    if not term[1]:
        out.append(ds.measure)
    return out


def run(case):
    term, c = case
    want = valid(term, c)
    v = val(c)
    r = repr(v)
    for s in forms(term):
        got = D.validate(s, v)
        require(bool(got) == want, 'validate(%r, %r) is %r', s, v, got)
        STAT.add('transitions')
    require(repr(v) == r, 'validate changed %s into %r', r, v)
    return 'valid' if want else 'not valid'


def run_schema(term):
    """one schema against all the values"""
    fs = forms(term)
    ok = 0
    for c in VALUES:
        want = valid(term, c)
        v = val(c)
        for s in fs:
            got = D.validate(s, v)
            require(bool(got) == want, 'validate(%r, %r) is %r', s, v, got)
        ok += want
        STAT.add('transitions', len(fs))
        STAT.add('traces')
    return 'some valid' if ok else 'none valid'


def run_alt(case):
    """alternatives: any of the schemas"""
    alts, c = case
    v = val(c)
    objs = []
    want = False
    for a in alts:
        if isinstance(a, str):
            tp = {'int': int, 'str': str, 'float': float, 'list': list, 'dict': dict}[a]
            objs.append(tp)
            want = want or isinstance(v, tp)
            require(bool(D.validate(tp, v)) == isinstance(v, tp), 'validate(%s, %r)', tp, v)
        else:
            objs.append(forms(a)[len(objs) % 2])
            want = want or valid(a, c)
    got = D.validate(tuple(objs), v)
    require(bool(got) == want, 'validate(%r, %r) is %r', tuple(objs), v, got)
    return 'valid' if want else 'not valid'


def matching(term, k=0):
    """a matching value; k varies its leaves and containers"""
    dims, m = term[1], term[2]
    if dims:
        n = dims[0][1] if dims[0][0] == 'F' else (k + 1) % 4
        return ('lt'[k % 2], tuple(matching(('D', dims[1:], m), k + i) for i in range(n)))
    if m[0] == 'rec':
        if k % 3 == 0:
            return ('d', tuple((n, matching(x, k + 1)) for n, x in m[1]))
        return ('lt'[k % 2], tuple(matching(x, k + i) for i, (_, x) in enumerate(m[1])))
    ok = [n for n, (_, ks) in LEAVES.items() if NAME[m] in ks]
    return ('v', ok[k % len(ok)]) if ok else None


def changes(c):
    """every value that differs from c at one position"""
    if c[0] == 'v':
        for n in LEAVES:
            if n != c[1]:
                yield ('v', n)
        yield ('l', ())
        yield ('l', (c,))
        yield ('d', ())
        return
    yield ('v', 'None')
    if c[0] in 'lt':
        xs = c[1]
        yield (c[0], xs + (('v', '1'),))
        yield ({'l': 't', 't': 'l'}[c[0]], xs)
        for i in range(len(xs)):
            yield (c[0], xs[:i] + xs[i + 1:])
            yield (c[0], xs[:i] + xs[i:i + 1] + xs[i:])
            for x in changes(xs[i]):
                yield (c[0], xs[:i] + (x,) + xs[i + 1:])
    else:
        kv = c[1]
        yield ('d', kv + (('extra', ('v', '1')),))
        yield ('d', tuple(reversed(kv)))
        for i in range(len(kv)):
            yield ('d', kv[:i] + kv[i + 1:])
            yield ('d', kv[:i] + ((kv[i][0] + 'x', kv[i][1]),) + kv[i + 1:])
            for x in changes(kv[i][1]):
                yield ('d', kv[:i] + ((kv[i][0], x),) + kv[i + 1:])


def no_none(c):
    return c is not None and (c[0] == 'v' or all(no_none(x if c[0] in 'lt' else x[1]) for x in c[1]))


def run_issub(case):
    a, b = case
    want = a == b
    for x in forms(a):
        for y in forms(b):
            r = D.issubschema(x, y)
            require(bool(r) == want, 'issubschema(%r, %r) is %r', x, y, r)
    return str(want)


def run_array(case):
    sh, code, term = case
    a = np.zeros(sh, code)
    want = t.observe(T.from_numpy(a.shape, a.dtype)) == term
    for s in forms(term)[:2]:
        require(bool(D.validate(s, a)) == want, 'validate(%s, array of %s %s)', s, sh, code)
    return str(want)


def run_grown_array(case):
    """an array is valid exactly for the datashape with its dimensions and its type"""
    sh, code, i, new = case
    a = np.zeros(sh, CODES[code][0])
    dims = [('F', n) for n in sh]
    m = CODES[code][1]
    want = i is None
    if i == 'type':
        m = CODES[new][1]
    elif i == 'less':
        dims.pop(new)
    elif i == 'more':
        dims.insert(new, ('F', 1))
    elif i is not None:
        dims[i] = new
    term = t.arr(t.ds(m), *dims)
    for s in forms(term)[:2]:
        got = D.validate(s, a)
        require(bool(got) == want, 'validate(%s, array of %s %s) is %r', s, sh, code, got)
    return str(want)


CODES = {'i4': ('i4', ('ct', 'int32')), 'i8': ('i8', ('ct', 'int64')), 'f8': ('f8', ('ct', 'float64')), 'u1': ('u1', ('ct', 'uint8')), '?': ('?', ('ct', 'bool')), 'c16': ('c16', ('ct', 'complex[float64]')),
         'S3': ('S3', ('str', 3, 'A')), 'S4': ('S4', ('str', 4, 'A')), 'U3': ('U3', ('str', 3, 'U32')), 'date': ('M8[D]', ('date',)), 'ns': ('M8[ns]', ('dt', None)), 'td': ('m8[s]', ('td', 's')), 'tdms': ('m8[ms]', ('td', 'ms')),
         'rec': ([('a', 'i4'), ('b', 'f8')], ('rec', (('a', t.I32), ('b', t.F64)))), 'swap': ([('b', 'f8'), ('a', 'i4')], ('rec', (('b', t.F64), ('a', t.I32)))),
         'name': ([('a', 'i4'), ('c', 'f8')], ('rec', (('a', t.I32), ('c', t.F64)))), 'long': ([('a', 'i4'), ('b', 'f8'), ('c', 'f8')], ('rec', (('a', t.I32), ('b', t.F64), ('c', t.F64)))),
         'deep': ([('a', 'i4'), ('b', [('x', 'f8')])], ('rec', (('a', t.I32), ('b', t.rec(('x', t.F64)))))), 'sub': ([('a', 'i4'), ('b', 'f8', (2,))], ('rec', (('a', t.I32), ('b', t.arr(t.F64, ('F', 2))))))}


def grown_arrays(q):
    out = []
    for nd in list(range(0, 9 if q else 17)) + ([12, 16] if q else [24, 31, 32]):
        for sh in {(1,) * nd, tuple((k % 3) + 1 for k in range(nd)) if nd < 9 else (1,) * nd, (0,) + (2,) * (nd - 1) if 0 < nd < 9 else (1,) * nd}:
            for code in CODES if nd < 6 else ('i4', 'rec'):
                out.append((sh, code, None, None))
                out += [(sh, code, 'type', c) for c in CODES if c != code]
                out += [(sh, code, 'less', k) for k in range(nd) if not(k and sh[k] == sh[k - 1])]
                out += [(sh, code, 'more', k) for k in range(nd + 1)]
                out += [(sh, code, k, d) for k in range(nd) for d in (('F', sh[k] + 1), ('V',), ('F', 0) if sh[k] else ('F', 3), ('T', 'M'))]
    return list(dict.fromkeys(out))


def run_issub_grown(fam):
    """of two big types which differ in one place neither is a subschema of the other"""
    name, n, at = fam
    base = scale.term((name, n, None))
    b = [t.build(base), t.text(base)]
    require(D.issubschema(b[0], b[0]) and D.issubschema(b[0], b[1]) and D.issubschema(b[1], t.build(base)), 'issubschema of %s and itself', b[1])
    for i in at:
        x = scale.term((name, n, i))
        for v in (t.build(x), t.text(x)):
            for w in b:
                require(not D.issubschema(v, w) and not D.issubschema(w, v), 'issubschema of %s and %s', v, w)
        STAT.add('transitions', 8)
    return name


FAMILY = []


def run_issub_types(i):
    """every kind of type, bare and as a datashape, and as text where it can be read"""
    def given(x):
        ds = t.build(x)
        out = [ds] if isinstance(ds, T.DataShape) else [ds, T.DataShape(ds)]
        if len(out) == 1 and len(ds) == 1:
            out.append(ds[0])
        return out
    a = given(FAMILY[i])
    for j in range(i, len(FAMILY)):
        b = given(FAMILY[j])
        for x in a:
            for y in b:
                for r in (D.issubschema(x, y), D.issubschema(y, x)):
                    STAT.add('transitions')
                    require((r is True) == (i == j) and (i == j or not r), 'issubschema(%r, %r) is %r', x, y, r)
    return '%d forms' % len(a)


VALUES = []


def grown(tier):
    """many items, fields, alternatives and levels; the wrong one everywhere"""
    q = tier == 'quick'
    I, S = t.ds(SCALAR['int64']), t.ds(SCALAR['string'])
    one, bad = ('v', '1'), [('v', 'x'), ('v', 'None'), ('v', '2.5'), ('l', ())]
    vals, alts = [], []
    for n in scale.sizes(*((12, scale.EDGES) if q else (40, scale.MORE))):
        names = ['f%d' % k for k in range(n)]
        rec = t.rec(*[(x, I) for x in names])
        vals += [(t.arr(I, t.V), ('l', (one,) * n)), (t.arr(I, ('F', n)), ('l', (one,) * n)), (t.arr(I, ('F', n)), ('l', (one,) * (n + 1))), (t.arr(I, ('F', n)), ('t', (one,) * (n - 1))),
                 (rec, ('d', tuple((x, one) for x in names))), (rec, ('t', (one,) * n)), (rec, ('l', (one,) * (n - 1))), (rec, ('l', (one,) * (n + 1))),
                 (rec, ('d', tuple((x, one) for x in reversed(names)) + (('more', one),)))]
        for i in scale.positions(n, 0, 12):
            for b in bad[:1 if n > 12 else 4]:
                xs = tuple(b if k == i else one for k in range(n))
                vals += [(t.arr(I, t.V), ('l', xs)), (t.arr(I, ('F', n)), ('t', xs)), (rec, ('d', tuple(zip(names, xs)))), (rec, ('t', xs)), (rec, ('l', xs)),
                         (t.arr(t.rec(('a', I)), t.V), ('l', tuple(('d', (('a', x),)) for x in xs))), (t.arr(I, t.V, ('F', 1)), ('l', tuple(('l', (x,)) for x in xs))),
                         (t.arr(I, ('F', 1), t.V), ('l', (('l', xs),))), (t.arr(rec, ('F', 2)), ('l', (('l', (one,) * n), ('l', xs))))]
                odd = t.rec(*[(x, S if k == i else I) for k, x in enumerate(names)])
                vals += [(odd, ('d', tuple(zip(names, xs)))), (odd, ('l', xs)), (odd, ('l', (one,) * n))]
            kv = tuple((x, one) for x in names)
            vals.append((rec, ('d', kv[:i] + kv[i + 1:])))
            vals.append((t.arr(I, t.V, ('F', 2)), ('l', tuple(('l', (one,) * (3 if k == i else 2)) for k in range(n)))))
            a = tuple(S if k == i else (t.arr(I, ('F', k)) if k else t.ds(SCALAR['date'])) for k in range(n))
            alts += [(a, ('v', 'x')), (a, one), (a, ('l', (one,) * i)), (a, ('l', (one,) * n))]
    for n in range(1, 13 if q else 25):
        for i in range(n):
            for leaf in (one, ('v', 'x')):
                for kind in ('l', 'd', 'ld'):
                    term, v = I, leaf
                    for k in reversed(range(n)):
                        if kind == 'l' or kind == 'ld' and k % 2:
                            term, v = t.arr(term, ('F', 2) if k == i else t.V), ('l', (v, v) if k == i and n < 20 else (v,))
                        else:
                            term, v = t.rec(('a', term), ('b', S if k == i else I)), ('d', (('a', v), ('b', ('v', 'x'))) if k == i else (('a', v), ('b', one)))
                    vals.append((term, v))
    return list(dict.fromkeys(vals)), list(dict.fromkeys(alts))


def spaces(tier):
    q = tier == 'quick'
    sc = [t.ds(m) for m in SCALAR.values()]
    few = [t.ds(SCALAR[n]) for n in ('int64', 'string', 'float64', 'datetime')]
    V, F0, F1, F2 = ('V',), ('F', 0), ('F', 1), ('F', 2)
    recs = [t.rec(('a', x)) for x in sc] + [t.rec(('a', x), ('b', y)) for x in few for y in few] + [t.rec()]
    s1 = sc + recs + [t.arr(x, d) for x in sc for d in (V, F0, F1, F2)]
    s2 = [t.arr(x, d) for x in recs[::3] + [t.rec(('a', few[0]), ('b', few[1]))] for d in (V, F2)] + [t.arr(x, d, e) for x in few[:2] for d in (V, F1, F2) for e in (V, F0, F2)]
    s2 += [t.rec(('a', x), ('b', y)) for x in few[:2] for y in (t.arr(few[0], V), t.arr(few[1], F2), recs[0], recs[8], t.rec(('x', few[0]), ('y', few[1])))]
    s2 += [t.rec(('b', x), ('a', few[0])) for x in few] + [t.rec(('x', few[0]), ('y', few[0]), ('z', few[1]))]
    if not q:
        s2 += [t.arr(x, d) for x in s2 for d in (V, F1, F2)] + [t.rec(('a', x), ('c', y)) for x in s2[::5] for y in few]
    schemas = list(dict.fromkeys(s1 + s2))
    L = [('v', n) for n in LEAVES]
    lf = [('v', n) for n in ('1', 'x', '2.5', 'None', 'datetime')]
    v1 = L + [(c, xs) for c in 'lt' for k in (0, 1, 2) for xs in itertools.product(lf, repeat=k)] + [('l', (x,)) for x in L]
    v1 += [('l', xs) for xs in itertools.product(lf[:3], repeat=3)]
    v1 += [('d', tuple(zip(ks, xs))) for ks in ((), ('a',), ('a', 'b'), ('b', 'a'), ('b',), ('a', 'c')) for xs in itertools.product(lf, repeat=len(ks))]
    inner = v1[len(L):]
    pickv = lf[:2] + inner[::9 if q else 4]
    v2 = [(c, (x, y)) for c in 'lt'[:1 if q else 2] for x in pickv for y in pickv] + [('l', (x,)) for x in inner[::2]]
    v2 += [('d', (('a', x), ('b', y))) for x in lf for y in inner[::5]]
    del VALUES[:]
    VALUES.extend(dict.fromkeys(v1 + v2))
    # matching values and their changes
    deep = schemas + [t.arr(x, d) for x in s2 for d in (V, F2)] + [t.rec(('p', x), ('q', few[1])) for x in s2] + [t.rec(('q', few[2]), ('p', x)) for x in s2[::2]]
    near = {}
    for x in dict.fromkeys(deep):
        for k in range(3):
            try:
                m = matching(x, k)
            except Exception:
                continue
            if not no_none(m):
                continue
            near[(x, m)] = 1
            for c in changes(m):
                near[(x, c)] = 1
    if not q:
        for x in s1:
            m = matching(x, 1)
            if no_none(m):
                for c in changes(m):
                    for c2 in changes(c):
                        near[(x, c2)] = 1
    near = list(near)
    alts = [a for k in (0, 1, 2, 3) for a in itertools.product(['int', 'str', few[0], few[1], t.arr(few[0], V), recs[0], 'list'], repeat=k)]
    vals = lf + v1[len(L)::11] + [('v', 'True'), ('d', (('a', ('v', '1')),)), ('l', (('v', '1'), ('v', '1')))]
    acases = [(a, c) for a in alts for c in vals]
    sub = [(a, b) for a in schemas[::3 if q else 1] for b in schemas[::2 if q else 3]] + [(a, a) for a in schemas]
    arrs = [(sh, code, term) for sh in [(), (0,), (2,), (3, 2)] for code in ('i8', 'f8', 'i4', '?')
            for term in [t.arr(t.ct(n), *ds) for n in ('int64', 'float64', 'int32', 'bool') for ds in [(), (F0,), (F2,), (('F', 3), F2), (V,)]]]
    shs = lambda x: t.text(x)
    FAMILY[:] = variants.family()
    gv, ga = grown(tier)
    return [
        Space('growth', gv, run, None, None, lambda c: show(c)[:400], 'many items, fields and levels; the wrong one everywhere'),
        Space('growth of alternatives', ga, run_alt, len(ga), None, lambda c: '%d alternatives' % len(c[0])),
        Space('schemas x values', schemas, run_schema, len(schemas) + len(VALUES), None, shs),
        Space('matching and near', near, run, len(near), None, show),
        Space('alternatives', acases, run_alt, len(alts), None, lambda c: 'validate(%s, %r)' % (tuple(a if isinstance(a, str) else t.text(a) for a in c[0]), val(c[1]))),
        Space('subschema', sub, run_issub, len(schemas), None, lambda c: 'issubschema(%s, %s)' % tuple(map(t.text, c))),
        Space('arrays', arrs, run_array, len(arrs), None, repr),
        Space('growth of arrays', grown_arrays(q), run_grown_array, None, None, repr, 'arrays of many dimensions and types; every single change of the schema'),
        Space('subschema of types', range(len(FAMILY)), run_issub_types, len(FAMILY), None, lambda i: t.text(FAMILY[i]), 'all pairs of types of every kind'),
        Space('growth of subschemas', scale.families(tier, limit=150), run_issub_grown, None, None, repr),
    ]
