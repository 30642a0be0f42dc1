"""C10  indexing a datashape predicts the datashape of the indexed array"""
import itertools
import numpy as np
from .. import scale
from .. import terms as t
from ..core import Space, require, STAT

D, T = t.D, t.T
PROPERTY = 'C10'
TECHNIQUE = ('exhaustive enumeration of indices (every slice of an interval, every tuple of index parts up to a length) '
             'over every datashape of a bounded family; each result is compared with a model of indexing, which is '
             'itself compared with NumPy on every case NumPy can express')
NOTE = ('Exhaustive within the bounds. Integer positions are not compared with the length of a dimension and lists of '
        'positions select orthogonally, as documented by the code; ellipses and type variables as indexed dimensions '
        'are only required not to misbehave.')
BOUNDS = {'quick': 'lengths 0..10 with every start/stop in -13..13 and step in -5..5, +-12; rank <= 3 with tuples of <= 4 parts',
          'thorough': 'lengths 0..24 with start/stop in -28..28 and every step in -27..27; rank <= 3 with tuples of <= 4 parts of a larger alphabet'}
ERR = (IndexError, TypeError, KeyError, ValueError)


class Refused(Exception):
    pass


def rlen(r):
    return (r[-1] - r[0]) // r.step + 1 if r else 0


def slice_len(d, s):
    """dimension left by a slice"""
    if s.step == 0:
        raise Refused
    if d[0] == 'F':
        return ('F', rlen(range(*s.indices(d[1]))))
    step = 1 if s.step is None else s.step
    start = 0 if s.start is None else s.start
    if s.stop is not None and s.stop >= 0 and start >= 0 and step > 0:
        return ('F', rlen(range(min(start, s.stop), s.stop, step)))
    return ('V',)


def model(term, ix):
    """term of the indexed array"""
    dims, m = term[1], term[2]
    if isinstance(ix, tuple):
        if not ix:
            return term
        if ix[0] is None:
            r = model(term, ix[1:])
            return ('D', (('F', 1),) + r[1], r[2])
        if len(ix) == 1:
            return model(term, ix[0])
        if not dims:
            raise Refused
        rest = model(('D', dims[1:], m), ix[1:])
        d = model_dim(dims[0], ix[0])
        return ('D', d + rest[1], rest[2])
    if dims:
        return ('D', model_dim(dims[0], ix) + dims[1:], m)
    if m[0] != 'rec':
        raise Refused
    fs = m[1]
    names = [n for n, _ in fs]
    if isinstance(ix, str):
        if ix not in names:
            raise Refused
        return dict(fs)[ix]
    if isinstance(ix, int):
        if not -len(fs) <= ix < len(fs):
            raise Refused
        return fs[ix][1]
    if isinstance(ix, list):
        out = []
        for i in ix:
            if isinstance(i, str):
                if i not in names:
                    raise Refused
                i = names.index(i)
            if not -len(fs) <= i < len(fs):
                raise Refused
            out.append(fs[i])
        if len(set(n for n, _ in out)) != len(out):
            raise Refused
        return ('D', (), ('rec', tuple(out)))
    if isinstance(ix, slice):
        if ix.step == 0:
            raise Refused
        return ('D', (), ('rec', fs[ix]))
    raise Refused


def model_dim(d, ix):
    if isinstance(ix, slice):
        return (slice_len(d, ix),)
    if isinstance(ix, list):
        return (('F', len(ix)),)
    if isinstance(ix, int):
        return ()
    raise Refused


def show(c):
    return '(%s).subshape[%r]' % (t.text(c[0]), dec(c[1]))


def dec(ix):
    """index code (hashable, jsonable) -> index"""
    if isinstance(ix, tuple):
        k = ix[0]
        if k == 'sl':
            return slice(*ix[1:])
        if k == 'li':
            return list(ix[1:])
        if k == 'tu':
            return tuple(dec(i) for i in ix[1:])
        if k == 'obj':
            return {'float': 1.5, 'object': object, 'array': np.array([0, 1]), 'dict': {}, 'ellipsis': Ellipsis}[ix[1]]
    return ix


def run(case):
    term, code = case
    ix = dec(code)
    ds = t.build(term)
    try:
        want = model(term, ix)
    except Refused:
        want = None
    try:
        got = ds.subshape[ix]
    except ERR as e:
        require(want is None, '%s raises %r instead of giving %s', show(case), e, want and t.text(want))
        got = None
    require(got is None or want is not None, '%s is %s, not an error', show(case), got)
    require(t.strict_eq(t.observe(ds), term), '%s changed the datashape', show(case))
    if got is None:
        return 'refused'
    require(isinstance(got, T.Mono), '%s is a %s', show(case), type(got))
    require(t.strict_eq(t.observe(got), want), '%s is %s instead of %s', show(case), t.observe(got), t.text(want))
    require(got == t.build(want) and str(got if isinstance(got, T.DataShape) else D.dshape(got)) == str(t.build(want)),
            '%s does not equal %s', show(case), t.text(want))
    return 'ok'


# --- conformance of the model to NumPy: all dimensions fixed, at most one list
def run_numpy(case):
    term, code = case
    ix = dec(code)
    parts = ix if isinstance(ix, tuple) else (ix,)
    shape, dtype = T.to_numpy(t.build(term))
    a = np.zeros(shape, dtype)
    fld = [p for p in parts if isinstance(p, str) or isinstance(p, list) and p and isinstance(p[0], str)]
    pos = tuple(p for p in parts if not any(p is f for f in fld))
    try:
        if fld:
            if len(fld) > 1 or len([p for p in pos if p is not None]) < len(shape) or parts[-1] is not fld[0]:
                raise IndexError
            a = a[fld[0]]
        b = a[pos] if pos else a
    except (IndexError, KeyError, ValueError):
        STAT.add('numpy_refused')
        return 'numpy refuses'
    want = model(term, ix)
    ds = t.build(want)
    s, dt = T.to_numpy(ds)
    require(s == b.shape and dt == b.dtype or b.dtype.names and b.dtype.names == dt.names and s == b.shape,
            'the model predicts %s %s for %s, NumPy gives %s %s', s, dt, show(case), b.shape, b.dtype)
    got = T.to_numpy(t.D.dshape(t.build(term).subshape[ix]))
    require(got[0] == b.shape, '%s has shape %s, NumPy gives %s', show(case), got[0], b.shape)
    return 'as numpy'


REC = ('rec', (('a', t.I32), ('b c', t.STR), ('z', t.F64)))
RECD = ('rec', (('a', t.arr(t.I32, ('F', 2))), ('b', t.rec(('x', t.I32), ('y', t.F64)))))
MEAS = [('ct', 'int32'), REC, RECD, ('str', 7, 'U8'), ('opt', t.I32), ('opt', t.ds(REC)), ('tup', (t.I32, t.F64)),
        ('rec', ()), ('dt', None), ('dec', 7, 4), ('map', t.I32, t.F64), ('fn', (t.I32,), t.I32)]


def sl(*a):
    return ('sl',) + a


N = None
PARTS = [0, 2, -1, 1, N, sl(N, N, N), sl(1, N, N), sl(N, 2, N), sl(0, 5, 2), sl(N, N, -1), sl(-2, N, N), sl(N, -1, N),
         ('li', 0, 2), ('li',), 'a', 'nope', ('li', 'a', 'z'), ('li', 'z', 'a')]
MORE = [5, -3, 7, sl(3, 1, -1), sl(2, 2, N), sl(N, N, 3), sl(0, 100, 7), sl(1, 4, N), ('li', 1), ('li', 0, 1, 2, 1), ('li', 'b c'),
        'b c', sl(N, N, 0)]


def grown(tier):
    out = []
    I = ('ct', 'int32')
    for n in scale.sizes(*((12, scale.EDGES) if tier == 'quick' else (40, scale.MORE))):
        nm = ['f%d' % k for k in range(n)]
        rec = ('D', (), ('rec', tuple((x, (t.I32, t.STR, t.F64)[k % 3]) for k, x in enumerate(nm))))
        one = ('D', (('F', n),), I)
        pos = scale.positions(n, 0, 17)
        out += [(rec, ('li',) + tuple(nm)), (rec, ('li',) + tuple(reversed(nm))), (rec, ('li',) + tuple(range(n))), (rec, ('sl', N, N, -1)), (rec, ('sl', N, N, 2))]
        out += [(d, ('li',) + (0,) * n) for d in (one, ('D', (('V',),), I), ('D', (('F', 3), ('F', 4)), I))]
        for i in pos:
            out += [(rec, nm[i]), (rec, i), (rec, i - n), (rec, ('li', nm[i])), (rec, ('sl', i, N, N)), (rec, ('sl', N, i, N)), (rec, ('sl', i, N, -1)), (rec, ('sl', -i, N, N)),
                    (one, ('sl', i, N, N)), (one, ('sl', N, i - n, 3)), (one, i)]
            out.append((rec, ('li',) + tuple(nm[:i] + ['nope'] + nm[i + 1:])))
            for j in pos:
                out.append((rec, ('li', nm[i], nm[j])))
                if i != j:
                    out.append((rec, ('li',) + tuple(nm[:i] + [nm[j]] + nm[i + 1:])))
        out += [(rec, n), (rec, -n - 1), (rec, 'nope')]
        if n > 130:
            continue
        many = ('D', tuple(('F', 2 + k % 4) if k % 3 != 2 else ('V',) for k in range(n)), REC)
        base = [('sl', N, N, N)] * n
        for i in pos:
            for p in (0, ('sl', 1, N, N), ('li', 0, 1, 1), N, -1, ('sl', N, N, -2)):
                for rest in ((), ('a',), (('li', 'z', 'a'),), ('nope',)):
                    out.append((many, ('tu',) + tuple(base[:i] + [p] + base[i + 1:]) + rest))
                out.append((many, ('tu',) + (0,) * i + (p,)))
                out.append((many, ('tu',) + (N,) * i + (p,) + (N,) * (n - i)))
    return list(dict.fromkeys(out))


def spaces(tier):
    q = tier == 'quick'
    nmax, lim = (10, 13) if q else (24, 28)
    ends = [None] + list(range(-lim, lim + 1))
    steps = [None] + (list(range(-5, 6)) + [-12, 12] if q else list(range(-lim + 1, lim)))

    def one(shard, n):
        k = 0
        for d in [('F', i) for i in range(nmax + 1)] + [('V',)]:
            for a in ends:
                k += 1
                if k % n != shard:
                    continue
                for b in ends:
                    for c in steps:
                        yield (('D', (d,), ('ct', 'int32')), ('sl', a, b, c))

    def slices(shard, n):
        for c in one(shard, n):
            STAT.add('states')
            STAT.add('transitions')
            yield c
    big = [0, 1, 2 ** 31 - 1, 2 ** 31, 10 ** 9, 2 ** 62]
    bigs = [(('D', (d,), REC), ('sl', a, b, c)) for d in [('F', n) for n in big] + [('V',)]
            for a in [None, 0, 1, -1, 7, 10 ** 9, -10 ** 9, 2 ** 63] for b in [None, 0, 1, -1, 7, 10 ** 9, -10 ** 9, 2 ** 63]
            for c in [None, 1, 2, 3, -1, -2, -3, 7, 10 ** 9, -10 ** 9]]
    # every tuple of parts
    dims = [('F', 3), ('F', 0), ('F', 5), ('V',)]
    parts = PARTS if q else PARTS + MORE
    dlists = [()] + [(d,) for d in dims] + list(itertools.product(dims[:1] + dims[2:], repeat=2)) + \
        [(('F', 3), ('F', 0)), (('F', 3), ('V',), ('F', 5)), (('V',), ('F', 2), ('F', 3)), (('F', 4), ('F', 3), ('V',))]

    def tuples(shard, n):
        k = 0
        for dl in dlists:
            for m in MEAS if len(dl) < 2 else MEAS[:3]:
                term = ('D', dl, m)
                for r in range(0, min(len(dl) + 3, 5)):
                    alpha = parts if r < 4 else PARTS[:1] + PARTS[4:5] + PARTS[6:7] + PARTS[9:10] + PARTS[12:17:2] if q else PARTS
                    for head in itertools.product(alpha, repeat=max(0, r - 2)):
                        k += 1
                        if k % n != shard:
                            continue
                        for tail in itertools.product(alpha, repeat=min(r, 2)):
                            STAT.add('transitions')
                            yield term, ('tu',) + head + tail
    singles = [(('D', dl, m), p) for dl in dlists for m in MEAS
               for p in PARTS + MORE + [3, -4, ('obj', 'float'), ('obj', 'object'), ('obj', 'dict'), ('obj', 'array'), ('obj', 'ellipsis'),
                                        '', ('li', 0, 0), ('li', 'a', 'a'), ('li', 'a', 'nope'), ('li', 7), ('li', -1, 0),
                                        sl(1, N, 2), sl(-2, -1, N), sl(N, N, 2)]
               if p is not None]
    fixed = [t.ds(m, *dl) for dl in [(), (('F', 3),), (('F', 3), ('F', 5)), (('F', 4), ('F', 3), ('F', 6))]
             for m in (('ct', 'int32'), REC)]

    def npcases(shard, n):
        k = 0
        for term in fixed:
            for r in range(1, len(term[1]) + 3):
                alpha = parts if r < 4 else parts[:12:2] + parts[14:15]
                for ix in itertools.product(alpha, repeat=r):
                    if sum(isinstance(p, tuple) and p[0] == 'li' for p in ix) > 1 or any(p == ('li',) for p in ix):
                        continue
                    # NumPy moves the result of a list to the front where an integer is not next to it
                    if any(isinstance(p, tuple) and p[0] == 'li' and not isinstance(p[1], str) for p in ix) and any(
                            isinstance(p, int) for p in ix):
                        continue
                    k += 1
                    if k % n == shard:
                        yield term, ('tu',) + ix
    def shownp(c):
        return show(c)
    dtup = lambda x: tuple(dtup(i) for i in x) if isinstance(x, list) else x
    return [
        Space('slices', slices, run, None, None, show, 'lengths x start x stop x step'),
        Space('large slices', bigs, run, len(bigs), len(bigs), show),
        Space('single parts', singles, run, len(dlists) * len(MEAS), len(singles), show),
        Space('tuples', tuples, run, len(dlists) * len(MEAS), None, show),
        Space('growth', grown(tier), run, None, 0, lambda c: show(c)[:400], 'records of many fields, lists of many items, tuples of many parts, the odd one everywhere'),
        Space('as numpy', npcases, run_numpy, len(fixed), None, show),
    ]
