"""C24  records behave as ordered mappings from names to types"""
import itertools
from collections import OrderedDict
from .. import terms as t
from ..core import Space, require, STAT

D, T = t.D, t.T
import numpy as np
from datashape import coretypes as ct

PROPERTY = 'C24'
TECHNIQUE = ('exhaustive enumeration of all field lists up to a length over colliding names and types, built by every route, and of every '
             'lookup; compared with a plain list of pairs; mutations of all containers involved follow every construction')
NOTE = ('Exhaustive within the bounds. Mappings other than ordered dictionaries are not accepted as fields by the documentation and are left open.')
BOUNDS = {'quick': 'up to 3 fields over 9 names and 6 types; up to 4 over 3 names and 3 types; malformed lists at every position',
          'thorough': 'up to 4 fields over 9 names and 4 types'}

NAMES = ['a', 'b', 'A', 'a b', '', '1', u'\xe9', 'int32', "it's"]
TYPES = OrderedDict([
    ('i', t.I32), ('s', t.STR), ('ai', t.arr(t.I32, t.F3)), ('oi', t.opt(t.I32)), ('r', t.rec(('a', t.F64), ('b', t.STR))),
    ('vr', t.arr(t.rec(('a', t.F64)), ('V',)))])
NUMPY = {'i': 'i4', 'ai': ('i4', (3,)), 'r': None, 's': 'O'}


def given(code, form):
    """the type in one of the forms a field may be given"""
    ds = t.build(TYPES[code])
    if form == 'text':
        return t.text(TYPES[code])
    if form == 'measure' and not ds.shape:
        return ds.measure
    return ds


def prescribed(fields):
    return t.rec(*[(n, TYPES[c]) for n, c in fields])


def routes(fields, form):
    def pairs():
        return [(n, given(c, form)) for n, c in fields]
    dup = len(set(n for n, _ in fields)) != len(fields)
    yield 'tuples', pairs(), lambda c: T.Record(c)
    yield 'lists', [list(p) for p in pairs()], lambda c: T.Record(c)
    yield 'tuple of lists', tuple(list(p) for p in pairs()), lambda c: T.Record(c)
    yield 'generator', pairs(), lambda c: T.Record(p for p in c)
    yield 'iterator', pairs(), lambda c: T.Record(iter(c))
    if not dup:
        yield 'ordered dict', OrderedDict(pairs()), lambda c: T.Record(c)
        yield 'items', OrderedDict(pairs()), lambda c: T.Record(c.items())
    if fields:
        yield 'slices', tuple(slice(n, x) for n, x in pairs()), lambda c: T.R[c]
        if len(fields) == 1:
            yield 'slice', slice(*pairs()[0]), lambda c: T.R[c]
    yield 'struct', ([n for n, _ in pairs()], [x for _, x in pairs()]), lambda c: ct_struct(*c)


def ct_struct(names, types):
    from datashape.type_symbol_table import sym
    return sym.dtype_constr['struct'](names, types)


def frozen(c):
    if isinstance(c, OrderedDict):
        return ('od', [(k, id(v)) for k, v in c.items()])
    if isinstance(c, (list, tuple)):
        return (type(c).__name__, [frozen(i) for i in c])
    return id(c) if not isinstance(c, (str, slice)) else c


def spoil(c):
    if isinstance(c, list):
        for i in c:
            spoil(i)
        c.reverse()
        c.append('junk')
    elif isinstance(c, OrderedDict):
        c.clear()
    elif isinstance(c, tuple):
        for i in c:
            spoil(i)


def check(rec, fields, what):
    term = prescribed(fields)
    names = [n for n, _ in fields]
    types = [TYPES[c] for _, c in fields]
    require(t.strict_eq(t.observe(rec), term), '%s: is %s', what, t.observe(rec))
    require(rec.names == names and type(rec.names) is list, '%s: names are %r', what, rec.names)
    require(len(rec.types) == len(types) and all(t.strict_eq(t.observe(x), y) for x, y in zip(rec.types, types)), '%s: types are %r', what, rec.types)
    require([n for n, _ in rec.fields] == names and tuple(rec.fields) == tuple(zip(rec.names, rec.types)), '%s: fields are %r', what, rec.fields)
    require(list(rec.dict) == names and all(rec.dict[n] == x for n, x in zip(names, rec.types)), '%s: dict is %r', what, rec.dict)
    require(rec.parameters == (tuple(zip(rec.names, rec.types)),), '%s: parameters are %r', what, rec.parameters)
    ds = T.DataShape(rec)
    arr = T.var * rec
    for i, (n, x) in enumerate(zip(names, types)):
        for got in (rec[n], ds.subshape[n], ds.subshape[i], ds.subshape[i - len(names)], arr.subshape[0, n], arr.subshape[0, i]):
            require(t.strict_eq(t.observe(got), x), '%s: field %r is %s', what, n, got)
        require(t.strict_eq(t.observe(arr.subshape[n] if False else arr.subshape[:, n]), ('D', (('V',),) + x[1], x[2])), '%s: [:, %r] is %s', what, n, arr.subshape[:, n])
    for bad in [n for n in NAMES + ['nope', 'names', 'fields', 'a '] if n not in names]:
        for f in (lambda: rec[bad], lambda: ds.subshape[bad], lambda: rec.dict[bad]):
            try:
                r = f()
            except KeyError:
                continue
            require(False, '%s: there is a field %r: %r', what, bad, r)
    for k in range(1, len(names) + 1):
        for sel in itertools.permutations(range(len(names)), k):
            want = t.rec(*[(names[i], types[i]) for i in sel])
            for key in (list(sel), [names[i] for i in sel], [names[i] if j % 2 else i for j, i in enumerate(sel)]):
                got = ds.subshape[key]
                require(t.strict_eq(t.observe(got), want), '%s: fields %r are %s', what, key, got)
    back = D.dshape(str(rec))
    require(t.strict_eq(t.observe(back), term) and back == ds, '%s: text %s', what, rec)
    require(T.Record(*rec.parameters) == rec and T.Record(rec.fields) == rec and T.Record(rec.dict.items()) == rec, '%s: is not rebuilt', what)


def numpy_layout(rec, fields, what):
    codes = {c for _, c in fields}
    if not codes <= {'i', 'ai', 's'} or any(n == '' for n, _ in fields):
        return
    dt = rec.to_numpy_dtype()
    require(list(dt.names or ()) == [n for n, _ in fields], '%s: NumPy fields are %s', what, dt.names)
    off = 0
    for n, c in fields:
        sub = np.dtype(NUMPY[c])
        require(dt.fields[n][0] == sub and dt.fields[n][1] == off, '%s: NumPy field %r is %s', what, n, dt.fields[n])
        off += sub.itemsize
    require(dt.itemsize == off, '%s: item size %d', what, dt.itemsize)
    if fields:
        back = T.from_numpy((), dt).measure
        require(back.names == rec.names, '%s: from NumPy: %s', what, back)


def run_fields(fields):
    names = [n for n, _ in fields]
    dup = len(set(names)) != len(names)
    made = []
    for form in ('measure', 'datashape', 'text'):
        for route, c, f in routes(fields, form):
            what = '%r from %s of %ss' % (fields, route, form)
            before = frozen(c)
            try:
                rec = f(c)
            except ValueError:
                require(dup, '%s is refused', what)
                require(frozen(c) == before, '%s: the container was changed', what)
                continue
            require(not dup, '%s is %s', what, rec)
            require(type(rec) is T.Record and frozen(c) == before, '%s: the container was changed', what)
            spoil(c)
            require(t.strict_eq(t.observe(rec), prescribed(fields)), '%s: changed with the container: %s', what, rec)
            made.append((rec, what))
            STAT.add('transitions')
    text = '{%s}' % ', '.join('%s: %s' % (t.quote(n), t.text(TYPES[c])) for n, c in fields)
    try:
        rec = D.dshape(text).measure
        require(not dup, '%s reads as %s', text, rec)
        made.append((rec, text))
    except ValueError:
        require(dup, '%s is refused', text)
    if dup:
        return 'duplicate'
    check(made[0][0], fields, made[0][1])
    numpy_layout(made[0][0], fields, made[0][1])
    for rec, what in made[1:]:
        require(rec == made[0][0] and not rec != made[0][0] and hash(rec) == hash(made[0][0]) and str(rec) == str(made[0][0]) and
                t.strict_eq(t.observe(rec), prescribed(fields)), '%s is %s', what, rec)
    rec = made[0][0]
    for spoiled in (rec.names, rec.types):
        del spoiled[:]
    unharmed(rec, fields)
    STAT.add('states')
    return '%d fields' % len(fields)


def unharmed(rec, fields):
    """what a record answers is the asker's to change"""
    names = [n for n, _ in fields]
    types = [t.build(TYPES[c]) for _, c in fields]
    for how in range(4):
        d, ns, ts = rec.dict, rec.names, rec.types
        if how == 0:
            d.clear()
        elif how == 1:
            d['zz'] = T.int8
            ns.append('zz')
        elif how == 2:
            for k in list(d):
                d[k] = None
            ns.reverse()
            if isinstance(ts, list):
                ts.reverse()
        else:
            del ns[:]
            d.update(a=1)
        require(rec.names == names and [n for n, _ in rec.fields] == names and list(rec.dict) == names and all(rec.dict[n] == x for n, x in zip(names, types)) and
                all(t.strict_eq(t.observe(rec[n]), TYPES[c]) for n, c in fields) and list(rec.types) == types and len(rec.fields) == len(names),
                '%r: changed with its answers: names %r, dict %r', fields, rec.names, rec.dict)
        require(t.strict_eq(t.observe(rec), prescribed(fields)) and rec == T.Record([(n, x) for n, x in zip(names, types)]), '%r: changed with its answers', fields)
        for bad in ('zz', 'nope'):
            try:
                r = rec[bad]
            except KeyError:
                continue
            require(False, '%r: a field %r came from its answers: %r', fields, bad, r)


def run_many(case):
    """many fields by every route; every look-up; every pair of equal names"""
    n, shift = case
    fields = tuple(('f%d' % ((i * 7 + shift) % n if n % 7 else i), 'is'[i % 2] if shift else ('i', 'ai', 's')[i % 3]) for i in range(n))
    names = [x for x, _ in fields]
    require(len(set(names)) == n, 'the check is wrong: %s', names)
    made = []
    for form in ('measure', 'datashape', 'text'):
        for route, c, f in routes(fields, form):
            rec = f(c)
            what = '%d fields from %s of %ss' % (n, route, form)
            spoil(c)
            require(t.strict_eq(t.observe(rec), prescribed(fields)), '%s: %s', what, rec)
            made.append((rec, what))
            STAT.add('transitions')
    rec = D.dshape('{%s}' % ', '.join('%s: %s' % (x, t.text(TYPES[c])) for x, c in fields)).measure
    made.append((rec, 'text of %d fields' % n))
    for rec, what in made:
        require(rec == made[0][0] and hash(rec) == hash(made[0][0]) and str(rec) == str(made[0][0]), '%s is %s', what, rec)
        require(rec.names == names and list(rec.dict) == names, '%s: names %s', what, rec.names)
    rec, what = made[0]
    types = [TYPES[c] for _, c in fields]
    ds = T.DataShape(rec)
    for i, (x, ty) in enumerate(zip(names, types)):
        for got in (rec[x], ds.subshape[x], ds.subshape[i], ds.subshape[i - n], rec.dict[x], rec.types[i], rec.fields[i][1]):
            require(t.strict_eq(t.observe(got), ty), '%s: field %r is %s', what, x, got)
        for j in range(n):
            want = t.rec((names[i], types[i]), (names[j], types[j])) if i != j else None
            if want and n <= 33:
                require(t.strict_eq(t.observe(ds.subshape[[i, names[j]]]), want), '%s: fields %d and %d', what, i, j)
    for k in (n, n + 1, -n - 1):
        try:
            r = ds.subshape[k]
        except (IndexError, TypeError, ValueError):
            continue
        require(False, '%s: subshape[%d] is %s', what, k, r)
    for bad in ('nope', 'f%d' % n, '', 'f'):
        try:
            r = rec[bad]
        except KeyError:
            continue
        require(False, '%s: there is a field %r', what, bad)
    for sel in (list(range(n)), list(range(n))[::-1], list(range(0, n, 2)), list(range(1, n, 3))):
        want = t.rec(*[(names[i], types[i]) for i in sel])
        require(not sel or t.strict_eq(t.observe(ds.subshape[sel]), want) and t.strict_eq(t.observe(ds.subshape[[names[i] for i in sel]]), want), '%s: fields %s', what, sel)
    numpy_layout(rec, fields, what)
    unharmed(rec, fields)
    if n <= 40:
        for i in range(n):
            for j in range(i + 1, n):
                l = list(fields)
                l[j] = (l[i][0], l[j][1])
                for route, c, f in routes(tuple(l), 'measure' if i % 2 else 'text'):
                    try:
                        r = f(c)
                    except ValueError:
                        continue
                    require(False, '%d fields, %d named as %d, from %s: %s', n, j, i, route, r)
                try:
                    r = D.dshape('{%s}' % ', '.join('%s: int32' % x for x, _ in l))
                except ValueError:
                    continue
                require(False, '%d fields, %d named as %d, read: %s', n, j, i, r)
        for i in range(n):
            for b in BAD:
                l = [(x, T.int32) for x in names]
                l[i] = ('c', b[1][1]) if b[0] not in ('dup', 'dup2') and isinstance(b[1], tuple) and len(b[1]) == 2 else b[1]
                if b[0] not in ('dup', 'dup2'):
                    refused(lambda: T.Record(l), 'Record of %d fields, %s at %d' % (n, b[0], i))
                    refused(lambda: T.Record(iter(l)), 'Record of an iterator of %d fields, %s at %d' % (n, b[0], i))
    STAT.add('states')
    return '%d' % n


def field_lists(n, names, types):
    fs = [(a, c) for a in names for c in types]

    def cases(shard, nsh):
        k = 0
        for m in range(n + 1):
            for x in itertools.product(fs, repeat=m):
                if k % nsh == shard:
                    yield x
                k += 1
    return cases


GOOD = [('a', T.int32), ('b', T.string)]
BAD = [
    ('one', ('c',)), ('three', ('c', T.int32, 3)), ('empty', ()), ('a number', 5), ('None', None), ('no type', ('c', None)), ('a float', ('c', 1.5)),
    ('a dimension', ('c', T.var)), ('an integer', ('c', 3)), ('a fixed', ('c', T.Fixed(3))), ('an ellipsis', ('c', T.Ellipsis())), ('bad text', ('c', 'nosuch')),
    ('empty text', ('c', '')), ('dup', ('a', T.int32)), ('dup2', ('b', 'int32')), ('class', ('c', T.Record)), ('bytes', ('c', b'int32')), ('list', ('c', [T.int32])),
]
BADSLICES = [slice('c', None), slice(None, T.int32), slice(None, None), slice(5, T.int32), slice('c', T.int32, 3), slice('c', None, 3), 'c', 5, None, ('c', T.int32),
             slice('c', T.var), slice('c', 3), slice('c', 'nosuch'), slice('a', T.int32), slice(b'c', T.int32), slice(('c',), T.int32), [slice('c', T.int32)]]


def refused(f, what):
    try:
        r = f()
    except (TypeError, ValueError, SyntaxError):
        return
    require(False, '%s gives %r', what, r)


def run_bad(case):
    kind, i, pos, k = case
    if kind == 'pair':
        l = list(GOOD[:k])
        # a copy of an existing name is a duplicate only where that name is there
        if BAD[i][0] in ('dup', 'dup2') and not any(n == BAD[i][1][0] for n, _ in l):
            return 'no duplicate'
        l.insert(pos, BAD[i][1])
        refused(lambda: T.Record(l), 'Record(%r)' % l)
        refused(lambda: T.Record(tuple(l)), 'Record(%r)' % (tuple(l),))
        refused(lambda: T.Record(x for x in l), 'Record(generator of %r)' % (l,))
    else:
        l = [slice(*p) for p in GOOD[:k]]
        if k == 0 and isinstance(BADSLICES[i], tuple):
            return 'a tuple of slices'
        if BADSLICES[i] == slice('a', T.int32) and k == 0:
            return 'no duplicate'
        l.insert(pos, BADSLICES[i])
        key = tuple(l) if len(l) > 1 else l[0]
        refused(lambda: T.R[key], 'R[%r]' % (key,))
    STAT.add('states')
    STAT.add('transitions', 3)
    return 'refused'


OTHER_NAMES = [1, 0, True, 2.5, None, ('a', 'b'), np.int64(7), np.str_('x'), b'y']


def run_names(case):
    """names that are not text become their text; then the usual rules hold"""
    a, b = OTHER_NAMES[case[0]], OTHER_NAMES[case[1]]
    sa, sb = str(a), str(b)
    pairs = [(a, T.int32), (sb if case[2] else b, T.string)]
    try:
        rec = T.Record(pairs)
    except ValueError:
        require(sa == sb, 'Record(%r) is refused', pairs)
        return 'duplicate'
    require(sa != sb, 'Record(%r) is %r', pairs, rec)
    require(rec.names == [sa, sb] and rec[sa] == T.int32 and rec[sb] == T.string and all(isinstance(n, str) for n in rec.names), 'Record(%r) is %r', pairs, rec)
    require(D.dshape(str(rec)).measure == rec, 'Record(%r) prints as %s', pairs, rec)
    return 'named'


# names that are easily taken for one another or for something else
NEAR = ['a', ' a', 'a ', '\ta', 'a\n', u'\xa0a', 'A', 'aa', u'\xe1', u'a\u0301', u'\u00c1', 'a.b', 'a-b', 'a_b', 'ab', '_a', '__a__', 'a1', '1a', '1', '01', '+1', '1.0', '-1', 'True', 'true', 'False', 'None',
        'class', 'int', 'var', 'null', '"a"', "'a'", '"', "'", '\\', 'a\\', '\\n', '\n', '\r\n', u'\u2028', u'\U0001f600', u'\ufb01', 'fi', u'\u212a', 'K', 'k', u'\xdf', 'ss',
        'names', 'fields', 'types', 'dict', 'a:b', 'a,b', '{a}', 'a: int32', '*', '...', '?a', '#a', '%s', '%', '{0}', '[a]', 'x' * 200, 'x' * 201, '', ' ', '  ', u'\u3000', u'\u200b', u'\ufeffa', u'\u0410', u'\x7f',
        u'\x85', u'\x1f']
NULS = ['\0', 'a\0', u'\ud800', u'\udfff']


def near_fields(q):
    names = NEAR + NULS
    for m in names:
        yield ((m, 'i'),)
        for n in names if not q else [x for x in names if len(x) < 100]:
            yield ((m, 'r'), (n, 'oi'))
        yield ((m, 's'), ('other', 'i'), (m + 'x', 'ai'))
    for k, m in enumerate(NEAR):
        yield ((m, 'i'), (NEAR[k - 1], 's'))


def spaces(tier):
    q = tier == 'quick'
    out = [Space('field lists', field_lists(3, NAMES if not q else NAMES[:6], list(TYPES) if not q else ['i', 's', 'ai', 'r']), run_fields,
                 rule='every list of fields, by every route'),
           Space('few names', field_lists(4, ['a', 'b', 'a b'], ['i', 'ai', 'oi']), run_fields, rule='every list of fields, by every route'),
           Space('pairs of fields', field_lists(2, NAMES, list(TYPES)), run_fields, rule='every list of fields, by every route'),
           Space('near names', list(dict.fromkeys(near_fields(q))), run_fields, rule='every pair of names that are easily taken for one another, by every route'),
           Space('malformed', [(kind, i, pos, k) for kind, l in (('pair', BAD), ('slice', BADSLICES)) for i in range(len(l)) for k in range(3) for pos in range(k + 1)],
                 run_bad, rule='one malformed field at every position'),
           Space('names', [(i, j, b) for i in range(len(OTHER_NAMES)) for j in range(len(OTHER_NAMES)) for b in (False, True)], run_names, rule='names of other classes')]
    sizes = list(range(2, 21)) + [31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257] if q else list(range(2, 71)) + [100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]
    out.append(Space('many fields', [(n, k) for n in sizes[::-1] for k in (0, 1, 5)], run_many, rule='records of many fields, equal names at every pair of places, malformed fields at every place'))
    if not q:
        out.append(Space('four fields', field_lists(4, ['a', 'b', 'A', '', '1'], ['i', 'r', 's']), run_fields, rule='every list of fields, by every route'))
    return out
