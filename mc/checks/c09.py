"""C09  conversion to and from NumPy keeps type and shape"""
import itertools
import numpy as np
from .. import scale
from .. import terms as t
from ..variants import family
from ..core import Space, require, STAT

D, T = t.D, t.T
PROPERTY = 'C09'
TECHNIQUE = ('exhaustive enumeration of dtype terms and of datashape terms up to a depth; the conversion in each '
             'direction is compared with a model table and with its own inverse')
NOTE = ('Exhaustive for the stated scalar kinds, nesting and shapes. NumPy itself is trusted. Maps, the char and void '
        'types and strings of length zero have no agreed NumPy counterpart and are only required not to crash.')
BOUNDS = {'quick': 'structured dtypes of depth 2 with up to 2 fields, sub-array shapes of rank 2, shapes of rank 3; datashape depth 2',
          'thorough': 'structured dtypes of depth 3 and of 3 fields; datashape depth 3'}
REFUSED = (TypeError, NotImplementedError)

# dtype text -> (model measure, dtype it converts back to) ; None: not representable
SCALARS = {}
for n in ('bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64'):
    SCALARS[n] = (('ct', n), n)
SCALARS['complex64'] = (('ct', 'complex[float32]'), 'complex64')
SCALARS['complex128'] = (('ct', 'complex[float64]'), 'complex128')
SCALARS['O'] = (('ct', 'object'), 'O')
for n in (1, 2, 3, 4, 5, 7, 8, 16, 30, 255, 256, 1000):
    SCALARS['S%d' % n] = (('str', n, 'A'), 'S%d' % n)
    SCALARS['U%d' % n] = (('str', n, 'U32'), 'U%d' % n)
for u in ('Y', 'M', 'W', 'D'):
    SCALARS['M8[%s]' % u] = (('date',), 'M8[D]')
for u in ('h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as'):
    SCALARS['M8[%s]' % u] = (('dt', None), 'M8[us]')
SCALARS['M8'] = (('dt', None), 'M8[us]')
for u in t.UNITS:
    SCALARS['m8[%s]' % u] = (('td', u), 'm8[%s]' % u)
for c in 'iufc':
    for w in (2, 4, 8, 16):
        if (c, w) in (('f', 16), ('c', 2), ('c', 4), ('i', 16), ('u', 16)):
            continue
        for o in '<>=':
            d = '%s%s%d' % (o, c, w)
            base = np.dtype(d).newbyteorder('=').name
            SCALARS[d] = SCALARS[base]
SCALARS['>U7'] = SCALARS['U7']
SCALARS['>M8[s]'] = SCALARS['M8[s]']
SCALARS['>m8[s]'] = SCALARS['m8[s]']
BAD = ['g', 'G', 'm8', 'm8[ps]', 'V8', 'm8[as]']
BAD = [b for b in BAD if not (b == 'g' and np.dtype('g') == np.dtype('d'))]


def np_build(d):
    """dtype term -> dtype.  ('s', code) ('rec', ((name, term, shape), ...), style)"""
    if d[0] == 's':
        return np.dtype(d[1])
    fields = [(n, np_build(x), s) if s else (n, np_build(x)) for n, x, s in d[1]]
    style = d[2]
    if style == 'plain':
        return np.dtype(fields)
    if style == 'aligned':
        return np.dtype(fields, align=True)
    if style == 'titled':
        return np.dtype([(('title ' + f[0], f[0]),) + f[1:] for f in fields])
    if style == 'reversed offsets':
        dts = [np.dtype((f[1], f[2])) if len(f) > 2 else f[1] for f in fields]
        offs, pos = [], 0
        for x in reversed(dts):
            offs.insert(0, pos)
            pos += x.itemsize + 3
        return np.dtype({'names': [f[0] for f in fields], 'formats': dts, 'offsets': offs, 'itemsize': pos + 5})
    raise KeyError(style)


def np_model(d, shape=()):
    dims = tuple(('F', n) for n in shape)
    if d[0] == 's':
        return ('D', dims, SCALARS[d[1]][0])
    return ('D', dims, ('rec', tuple((n, np_model(x, s)) for n, x, s in d[1])))


def np_back(d):
    if d[0] == 's':
        return np.dtype(SCALARS[d[1]][1])
    return np.dtype([(n, np_back(x), s) if s else (n, np_back(x)) for n, x, s in d[1]])


def run_np(case):
    d, shape = case
    dt = np_build(d)
    term = np_model(d, shape)
    o = T.from_numpy(shape, dt)
    require(t.strict_eq(t.observe(o), term), 'from_numpy(%s, %s) is %s instead of %s', shape, dt, t.observe(o), term)
    require(isinstance(o, D.DataShape) == bool(shape), 'from_numpy(%s, %s) is a %s', shape, dt, type(o))
    s2, d2 = T.to_numpy(o)
    want = np_back(d)
    require(s2 == tuple(shape) and all(type(x) is int for x in s2), '%s %s comes back with shape %s', shape, dt, s2)
    require(d2 == want, '%s comes back as %s instead of %s', dt, d2, want)
    require(T.to_numpy_dtype(o) == want, 'to_numpy_dtype(%s) is %s', o, T.to_numpy_dtype(o))
    o2 = T.from_numpy(s2, d2)
    require(o2 == o and t.strict_eq(t.observe(o2), term), '%s comes back from NumPy as %s', o, o2)
    if d[0] == 's':
        c = T.CType.from_numpy_dtype(dt)
        if dt.kind not in 'SU' or dt.isnative:
            require(t.strict_eq(t.obs_measure(c), term[2]), 'CType.from_numpy_dtype(%s) is %s', dt, c)
    else:
        require(o.measure.to_numpy_dtype() == want, 'Record.to_numpy_dtype of %s', dt)
    return d[0] if d[0] == 's' else '%d fields' % len(d[1])


def run_bad(case):
    code, wrap = case
    dt = np.dtype(code) if not wrap else np.dtype([('a', 'i4'), ('b', code)])
    try:
        o = T.from_numpy((2,), dt)
    except (TypeError, NotImplementedError, ValueError):
        return 'refused'
    require(False, 'from_numpy gives %r for %s', o, dt)


SHAPES = [s for n in range(4) for s in itertools.product((0, 1, 2, 7), repeat=n)] + [(10 ** 9,), (3, 2, 1, 4), (1,) * 6]
SUBS = [(), (0,), (1,), (3,), (2, 3)]


def structs(tier):
    codes = ['int32', 'float64', 'S3', 'U4', 'O', 'M8[D]', 'M8[ns]', 'm8[s]', 'bool', '>i2', 'complex64']
    leaf = [('s', c) for c in codes]
    lvl1 = []
    for x in leaf:
        for s in SUBS:
            lvl1.append(('rec', (('a', x, s),), 'plain'))
    pairs = itertools.product([(x, s) for x in leaf for s in ((), (3,))], repeat=2)
    for (x, s), (y, r) in pairs:
        for st in ('plain', 'aligned', 'reversed offsets', 'titled'):
            lvl1.append(('rec', (('z', x, s), ('a b', y, r)), st))
    for n in (3, 5):
        for xs in itertools.product(leaf[:4], repeat=3):
            lvl1.append(('rec', tuple(('f%d' % (n - i), xs[i % 3], SUBS[(i + n) % 5]) for i in range(n)), 'plain'))
    inner = lvl1[::37] + [('rec', (('q', ('s', 'int8'), ()),), 'plain')]
    lvl2 = []
    for x in inner:
        for s in SUBS:
            for y in leaf[:3] + inner[::9]:
                for st in ('plain', 'aligned'):
                    lvl2.append(('rec', (('x', x, s), ('y', y, ())), st))
    out = lvl1 + lvl2
    if tier != 'quick':
        for x in lvl2[::7]:
            for s in SUBS:
                for y in leaf + lvl1[::53]:
                    out.append(('rec', (('p', y, s), ('q', x, s)), 'plain'))
    return list(dict.fromkeys(out))


# ------------------------------------------------------- datashape -> numpy
UNSPEC = object()


def to_np(term):
    """-> (shape, dtype) | 'refuse' | UNSPEC"""
    shape = []
    for d in term[1]:
        if d[0] == 'F':
            shape.append(d[1])
        elif d[0] == 'T':
            shape.append(-1)
        else:
            return 'refuse'
    m = msr(term[2])
    if m is UNSPEC or isinstance(m, str):
        return m
    return tuple(shape), m


def msr(m):
    k = m[0]
    if k == 'ct':
        if m[1] in ('char', 'void'):
            return UNSPEC
        return np.dtype({'complex[float32]': 'complex64', 'complex[float64]': 'complex128'}.get(m[1], m[1]))
    if k == 'str':
        if m[1] == 0:
            return UNSPEC
        if m[1] is None:
            return np.dtype('O')
        return np.dtype('%s%d' % ('S' if m[2] == 'A' else 'U', m[1]))
    if k == 'date':
        return np.dtype('M8[D]')
    if k == 'dt':
        return np.dtype('M8[us]')
    if k == 'td':
        return np.dtype('m8[%s]' % m[1])
    if k == 'dec':
        if m[2]:
            return np.dtype('f8')
        for top, n in ((2, 'i1'), (4, 'i2'), (9, 'i4'), (18, 'i8')):
            if m[1] <= top:
                return np.dtype(n)
        return 'refuse'
    if k in ('rec', 'tup'):
        items = m[1] if k == 'rec' else [('f%d' % i, x) for i, x in enumerate(m[1])]
        fields, unspec = [], False
        for n, x in items:
            r = to_np(x)
            if r is UNSPEC:
                unspec = True
            elif r == 'refuse' or -1 in r[0]:
                return 'refuse'
            else:
                if n == '':
                    unspec = True            # NumPy renames fields without a name
                fields.append((n, r[1], r[0]) if r[0] else (n, r[1]))
        if unspec:
            return UNSPEC
        try:
            return np.dtype(fields)
        except Exception:
            return UNSPEC
    if k == 'opt':
        inner = m[1]
        if not inner[1] and inner[2][0] in ('date', 'dt', 'td'):
            return msr(inner[2])
        return 'refuse'
    if k == 'map':
        return UNSPEC
    return 'refuse'


def back(term):
    """what NumPy cannot express is lost"""
    m = term[2]
    k = m[0]
    if k == 'str':
        m = ('ct', 'object') if m[1] is None else m if m[2] == 'A' else ('str', m[1], 'U32')
    elif k == 'dt':
        m = ('dt', None)
    elif k == 'dec':
        r = msr(m)
        m = ('ct', r.name)
    elif k == 'opt':
        return ('D', term[1], back(m[1])[2])
    elif k == 'rec':
        m = ('rec', tuple((n, back(x)) for n, x in m[1]))
    elif k == 'tup':
        m = ('rec', tuple(('f%d' % i, back(x)) for i, x in enumerate(m[1])))
    return ('D', term[1], m)


def has_empty(term):
    return any(s[2][0] in ('rec', 'tup') and not s[2][1] for s in t.subterms(term))


def run_ds(term):
    o = t.build(term)
    want = to_np(term)
    try:
        got = T.to_numpy(o)
    except REFUSED as e:
        require(want in ('refuse', UNSPEC), 'to_numpy(%s) is refused: %s', ascii(t.text(term)), e)
        try:
            T.to_numpy_dtype(o)
        except REFUSED:
            return 'refused'
        require(not t.strict_eq(to_np(t.ds(term[2])), 'refuse'), 'to_numpy_dtype(%s) is accepted', ascii(t.text(term)))
        return 'refused, measure accepted'
    if want is UNSPEC:
        return 'unspecified'
    require(not isinstance(want, str), 'to_numpy(%s) is %s', ascii(t.text(term)), got)
    require(type(got) is tuple and got[0] == want[0] and got[1] == want[1], 'to_numpy(%s) is %s instead of %s',
            ascii(t.text(term)), got, want)
    require(T.to_numpy_dtype(o) == want[1] and T.to_numpy_dtype(o.measure) == want[1], 'to_numpy_dtype(%s)', ascii(t.text(term)))
    s = T.to_numpy(o.measure)
    require(s[0] == () and s[1] == want[1], 'to_numpy of the measure of %s', ascii(t.text(term)))
    if -1 in got[0] or has_empty(term):
        return 'accepted'
    r = T.from_numpy(*got)
    require(t.strict_eq(t.observe(r), back(term)), '%s comes back from NumPy as %s', ascii(t.text(term)), r)
    return 'round trip'


def grown(tier):
    """dtypes of many fields, one of them odd; deep ones"""
    out = []
    a, odd = ('s', 'int32'), [('s', 'S3'), ('s', 'O'), ('s', 'm8[s]'), ('rec', (('q', ('s', 'int8'), ()),), 'plain')]
    for n in scale.sizes(*((12, scale.EDGES) if tier == 'quick' else (40, scale.MORE))):
        for style in ('plain', 'aligned', 'reversed offsets', 'titled'):
            out.append(('rec', tuple(('f%d' % (n - k), a, ()) for k in range(n)), style))
        for i in scale.positions(n, 0, 12):
            for j, o in enumerate(odd):
                out.append(('rec', tuple(('f%d' % k, o if k == i else a, ()) for k in range(n)), ('plain', 'reversed offsets')[(i + j) % 2]))
            out.append(('rec', tuple(('f%d' % k, a, (2, 3) if k == i else ()) for k in range(n)), 'plain'))
            out.append(('rec', tuple(('x' if k == i else 'f%d' % k, a, ()) for k in range(n)), 'plain'))
    for n in range(1, 13 if tier == 'quick' else 25):
        for i in range(n):
            x = ('s', 'float64')
            for k in reversed(range(n)):
                x = ('rec', (('a', x, (2,) if k == i else ()),) + ((('b', a, ()),) if k == i else ()), 'plain')
            out.append(x)
    return [(d, s) for d in out for s in ((), (4,))] + [(a, (2,) * n) for n in range(33)] + [(a, (1,) * i + (2,) + (1,) * (31 - i)) for i in range(32)]


def run_size(name):
    """the sizes of the plain types are those of their dtypes; an option has the size of its type"""
    x = getattr(T, name)
    dt = T.to_numpy_dtype(x)
    require(x.itemsize == dt.itemsize and x.alignment == dt.alignment, '%s has size %s and alignment %s', x, x.itemsize, x.alignment)
    require(x.to_numpy_dtype() == dt, '%s.to_numpy_dtype() is %s', x, x.to_numpy_dtype())
    y = D.dshape(str(x)).measure
    require(y.itemsize == x.itemsize and y.alignment == x.alignment, '%s read from text', name)
    for o in (T.Option(x), T.Option(y), T.Option(T.Option(x)), D.dshape('?' + str(x)).measure):
        require(o.itemsize == dt.itemsize, 'the size of %s is %s', o, o.itemsize)
    r = T.CType.from_numpy_dtype(dt)
    require(r == x and r.itemsize == x.itemsize and r.alignment == x.alignment, '%s from NumPy is %s', dt, r)
    return 'ok'


SIZED = ['bool_', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64', 'complex64', 'complex128',
         'int_', 'real', 'intptr', 'uintptr']


def spaces(tier):
    q = tier == 'quick'
    scal = [(('s', c), s) for c in SCALARS for s in SHAPES]
    st = structs(tier)
    sts = [(d, s) for d in st for s in ((), (4,), (2, 0))] + [(d, s) for d in st[::50] for s in SHAPES]
    fam = family()
    d2, e2 = t.bfs(t.atoms(), t.contexts(), 2 if q else 3)
    d3, e3 = t.bfs(t.small_atoms(), t.contexts(), 3)
    d2, e2 = d2 + d3, e2 + e3
    decs = [t.arr(t.ds(('dec', p, s)), *ds) for p in range(0, 40) for s in (0, 1, 5) for ds in ((), (t.F3,))]
    show = lambda x: ascii(t.text(x))
    shownp = lambda c: '%s %s' % (c[1], np_build(c[0]))
    return [
        Space('scalar dtypes', scal, run_np, len(scal), 0, shownp),
        Space('structured dtypes', list(dict.fromkeys(sts)), run_np, len(sts), 0, shownp),
        Space('growth of dtypes', grown(tier), run_np, None, 0, lambda c: '%s %s' % (c[1], str(np_build(c[0]))[:300])),
        Space('growth', scale.cases(tier), lambda c: run_ds(scale.term(c)), None, 0, scale.show),
        Space('sizes', SIZED, run_size, len(SIZED), 0, str),
        Space('unsupported dtypes', [(b, w) for b in BAD for w in (False, True)], run_bad, None, 0, repr),
        Space('datashapes', list(dict.fromkeys(fam + d2 + decs)), run_ds, len(fam) + len(d2), e2, show),
    ]
