"""The model of datashapes: plain nested tuples, independent of the library.

datashape  ('D', dims, measure)
dims       ('F', n) ('V',) ('T', name) ('E', None | name)
measures   ('ct', name) ('str', fixlen|None, enc) ('date',) ('time', tz)
           ('dt', tz) ('td', unit) ('units', unit, ds) ('dec', p, s)
           ('json',) ('null',) ('bytes',) ('tv', name) ('opt', ds)
           ('rec', ((name, ds), ...)) ('tup', (ds, ...)) ('fn', args, ret)
           ('map', ds, ds) ('cat', values, measure, ordered)

build()    term -> object, through the public constructors
observe()  object -> term, through the public attributes
text()     term -> datashape source text (reference printer)
"""
import datashape as D
from datashape import coretypes as T

CTYPES = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
          'uint64', 'float16', 'float32', 'float64', 'complex[float32]',
          'complex[float64]', 'void', 'object', 'char']
_CT = {'bool': T.bool_, 'complex[float32]': T.complex64,
       'complex[float64]': T.complex128, 'void': T.void, 'object': T.object_,
       'char': T.char}
for _n in CTYPES:
    if _n not in _CT:
        _CT[_n] = getattr(T, _n)
UNITS = ['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y']


def ds(m, *dims):
    return ('D', tuple(dims), m)


def ct(name):
    return ('D', (), ('ct', name))


def rec(*fields):
    return ('D', (), ('rec', tuple(fields)))


def tup(*items):
    return ('D', (), ('tup', tuple(items)))


def opt(t):
    return ('D', (), ('opt', t))


def fn(args, ret):
    return ('D', (), ('fn', tuple(args), ret))


def mp(k, v):
    return ('D', (), ('map', k, v))


def arr(t, *dims):
    return ('D', tuple(dims) + t[1], t[2])


I32, F64, BOOL = ct('int32'), ct('float64'), ct('bool')
STR = ds(('str', None, 'U8'))
F3, V, M, E, EA = ('F', 3), ('V',), ('T', 'M'), ('E', None), ('E', 'A')


# -------------------------------------------------------------- build
# classes of types defined outside the library, by name (C28): the kind ('my', name, arguments), of a measure or a dimension
USER = {}


def is_term(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'D'


def build_my(m):
    return USER[m[1]](*[build(a) if is_term(a) else a for a in m[2]])


def obs_my(o):
    return ('my', type(o).__name__, tuple(observe(p) if isinstance(p, T.Mono) else p for p in o.parameters))


def text_my(m):
    args = ', '.join(text(a) if is_term(a) else _val(a) for a in m[2])
    return m[1].lower() + ('[%s]' % args if m[2] else '')


def build_dim(d):
    k = d[0]
    if k == 'my':
        return build_my(d)
    if k == 'F':
        return T.Fixed(d[1])
    if k == 'V':
        return T.Var()
    if k == 'T':
        return T.TypeVar(d[1])
    return T.Ellipsis(T.TypeVar(d[1])) if d[1] is not None else T.Ellipsis()


def build_measure(m):
    k = m[0]
    if k == 'my':
        return build_my(m)
    if k == 'ct':
        return _CT[m[1]]
    if k == 'str':
        if m[1] is None:
            return T.String(m[2])
        return T.String(m[1], m[2])
    if k == 'date':
        return T.Date()
    if k == 'time':
        return T.Time(m[1])
    if k == 'dt':
        return T.DateTime(m[1])
    if k == 'td':
        return T.TimeDelta(m[1])
    if k == 'units':
        return T.Units(m[1], build(m[2]))
    if k == 'dec':
        return T.Decimal(m[1], m[2])
    if k == 'json':
        return T.JSON()
    if k == 'null':
        return T.Null()
    if k == 'bytes':
        return T.Bytes()
    if k == 'tv':
        return T.TypeVar(m[1])
    if k == 'opt':
        return T.Option(build(m[1]))
    if k == 'rec':
        return T.Record([(n, build(t)) for n, t in m[1]])
    if k == 'tup':
        return T.Tuple([build(t) for t in m[1]])
    if k == 'fn':
        return T.Function(*([build(t) for t in m[1]] + [build(m[2])]))
    if k == 'map':
        return T.Map(build(m[1]), build(m[2]))
    if k == 'cat':
        return T.Categorical(list(m[1]), build_measure(m[2]), m[3])
    raise KeyError(k)


def build(t):
    return T.DataShape(*([build_dim(d) for d in t[1]] + [build_measure(t[2])]))


# -------------------------------------------------------------- observe
def obs_dim(d):
    if USER.get(type(d).__name__) is type(d):
        return obs_my(d)
    if isinstance(d, T.Fixed):
        return ('F', int(d))
    if isinstance(d, T.Var):
        return ('V',)
    if isinstance(d, T.TypeVar):
        return ('T', d.symbol)
    if isinstance(d, T.Ellipsis):
        tv = d.typevar
        return ('E', None if tv is None else (tv.symbol if isinstance(tv, T.TypeVar) else tv))
    return ('?dim', repr(d))


def obs_measure(m):
    if USER.get(type(m).__name__) is type(m):
        return obs_my(m)
    if isinstance(m, T.CType):
        return ('ct', m.name)
    if isinstance(m, T.String):
        return ('str', m.fixlen, m.encoding)
    if isinstance(m, T.Date):
        return ('date',)
    if isinstance(m, T.Time):
        return ('time', m.tz)
    if isinstance(m, T.DateTime):
        return ('dt', m.tz)
    if isinstance(m, T.TimeDelta):
        return ('td', m.unit)
    if isinstance(m, T.Units):
        return ('units', m.unit, observe(m.tp))
    if isinstance(m, T.Decimal):
        return ('dec', m.precision, m.scale)
    if isinstance(m, T.JSON):
        return ('json',)
    if isinstance(m, T.Null):
        return ('null',)
    if isinstance(m, T.Bytes):
        return ('bytes',)
    if isinstance(m, T.TypeVar):
        return ('tv', m.symbol)
    if isinstance(m, T.Option):
        return ('opt', observe(m.ty))
    if isinstance(m, T.Record):
        return ('rec', tuple((n, observe(t)) for n, t in m.fields))
    if isinstance(m, T.Tuple):
        return ('tup', tuple(observe(t) for t in m.dshapes))
    if isinstance(m, T.Function):
        return ('fn', tuple(observe(t) for t in m.argtypes), observe(m.restype))
    if isinstance(m, T.Map):
        return ('map', observe(m.key), observe(m.value))
    if isinstance(m, T.Categorical):
        return ('cat', tuple(m.categories), obs_measure(m.type), bool(m.ordered))
    return ('?measure', type(m).__name__, repr(m))


def observe(o):
    if isinstance(o, T.DataShape):
        return ('D', tuple(obs_dim(d) for d in o.shape), obs_measure(o.measure))
    return ('D', (), obs_measure(o))


def strict_eq(a, b):
    """term equality that also tells True from 1 and 1 from 1.0"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(strict_eq, a, b))
    return type(a) is type(b) and a == b


# -------------------------------------------------------------- text
def quote(s, q="'"):
    out = []
    for c in s:
        if c == q:
            out.append('\\' + q)
        elif c in '\b\f\n\r\t':
            out.append({'\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}[c])
        elif c == '\\' or ord(c) < 32 or 0xd800 <= ord(c) < 0xe000:
            out.append('\\u%04x' % ord(c))
        else:
            out.append(c)
    return q + ''.join(out) + q


def text_dim(d):
    k = d[0]
    if k == 'my':
        return text_my(d)
    if k == 'F':
        return str(d[1])
    if k == 'V':
        return 'var'
    if k == 'T':
        return d[1]
    return '...' if d[1] is None else d[1] + '...'


def _val(v):
    return quote(v) if isinstance(v, str) else repr(v)


def text_measure(m):
    k = m[0]
    if k == 'my':
        return text_my(m)
    if k == 'ct':
        return m[1]
    if k == 'str':
        if m[1] is None:
            return 'string' if m[2] == 'U8' else "string['%s']" % m[2]
        return 'string[%d]' % m[1] if m[2] == 'U8' else "string[%d, '%s']" % (m[1], m[2])
    if k in ('date', 'json', 'null', 'bytes'):
        return k
    if k in ('time', 'dt'):
        n = {'time': 'time', 'dt': 'datetime'}[k]
        return n if m[1] is None else '%s[tz=%s]' % (n, quote(m[1]))
    if k == 'td':
        return "timedelta[unit='%s']" % m[1]
    if k == 'units':
        return 'units[%s, %s]' % (quote(m[1]), text(m[2]))
    if k == 'dec':
        return 'decimal[precision=%d, scale=%d]' % m[1:]
    if k == 'tv':
        return m[1]
    if k == 'opt':
        return 'option[%s]' % text(m[1])
    if k == 'rec':
        return '{%s}' % ', '.join('%s: %s' % (quote(n), text(t)) for n, t in m[1])
    if k == 'tup':
        return '(%s)' % ', '.join(map(text, m[1]))
    if k == 'fn':
        return '(%s) -> %s' % (', '.join(map(text, m[1])), text(m[2]))
    if k == 'map':
        return 'map[%s, %s]' % (text(m[1]), text(m[2]))
    if k == 'cat':
        return 'categorical[[%s], type=%s, ordered=%s]' % (
            ', '.join(map(_val, m[1])), text_measure(m[2]), m[3])
    raise KeyError(k)


def text(t):
    return ' * '.join([text_dim(d) for d in t[1]] + [text_measure(t[2])])


# -------------------------------------------------------------- structure
def children(m):
    """the datashapes directly inside a measure"""
    k = m[0]
    if k == 'opt':
        return (m[1],)
    if k == 'rec':
        return tuple(t for _, t in m[1])
    if k == 'tup':
        return m[1]
    if k == 'fn':
        return m[1] + (m[2],)
    if k == 'map':
        return m[1:]
    if k == 'units':
        return (m[2],)
    if k == 'my':
        return tuple(a for a in m[2] if is_term(a))
    return ()


def subterms(t):
    yield t
    for c in children(t[2]):
        for s in subterms(c):
            yield s


def dims_anywhere(t):
    for s in subterms(t):
        for d in s[1]:
            yield d


# -------------------------------------------------------------- spaces
def atoms(big=False):
    a = [ct(n) for n in CTYPES]
    a += [STR, ds(('str', 7, 'U8')), ds(('str', None, 'A')), ds(('str', 12, 'U16')),
          ds(('str', 1, 'A')), ds(('str', None, 'U32'))]
    a += [ds(('date',)), ds(('time', None)), ds(('time', 'UTC')), ds(('dt', None)),
          ds(('dt', 'US/Eastern')), ds(('td', 'us')), ds(('td', 'D')), ds(('td', 's'))]
    a += [ds(('dec', 18, 0)), ds(('dec', 7, 4)), ds(('json',)), ds(('null',)),
          ds(('bytes',)), ds(('tv', 'T')), ds(('tv', 'Dtype_2'))]
    a += [ds(('units', 'kg', F64)), ds(('units', 'counts/time', ct('uint32')))]
    a += [ds(('cat', ('a', "b'c"), STR[2], False)),
          ds(('cat', (1, -2, 30), ('ct', 'int64'), True)),
          ds(('cat', (True, False), ('ct', 'bool'), False)),
          ds(('cat', (), STR[2], False))]
    a += [ds(('rec', ())), ds(('tup', ())), ds(('fn', (), I32))]
    return a


def small_atoms():
    return [I32, F64, STR, ds(('str', 7, 'A')), ds(('dt', 'UTC')), ds(('dec', 7, 4)),
            ds(('tv', 'T')), ds(('cat', ('a', 'b'), STR[2], True)), ds(('null',)),
            ds(('rec', ())), ds(('tup', ())), ds(('units', 'kg', F64)), ds(('td', 'ms'))]


DIMS = [('F', 3), ('F', 0), ('V',), ('T', 'M'), ('E', None), ('E', 'A')]


def contexts():
    """unary contexts: (name, datashape term -> datashape term or None)"""
    out = []

    def dim(d):
        def f(t):
            if d[0] == 'E' and any(x[0] == 'E' for x in t[1]):
                return None
            return ('D', (d,) + t[1], t[2])
        return f
    for d in DIMS:
        out.append(('dim' + text_dim(d), dim(d)))
    out.append(('option', lambda t: ds(('opt', t))))
    out.append(('rec1', lambda t: ds(('rec', (('a', t),)))))
    out.append(('rec2', lambda t: ds(('rec', (('b', I32), ('a b', t))))))
    out.append(('rec3', lambda t: ds(('rec', (('x', t), ('y', STR), ('_z', t))))))
    out.append(('tup1', lambda t: ds(('tup', (t,)))))
    out.append(('tup2', lambda t: ds(('tup', (t, I32)))))
    out.append(('fnarg', lambda t: ds(('fn', (t,), BOOL))))
    out.append(('fnarg2', lambda t: ds(('fn', (I32, t), t))))
    out.append(('fnret', lambda t: ds(('fn', (), t))))
    out.append(('mapkey', lambda t: ds(('map', t, I32))))
    out.append(('mapval', lambda t: ds(('map', STR, t))))
    out.append(('units', lambda t: ds(('units', 'm/s', t))))
    return out


def bfs(start, ctxs, depth):
    """-> (terms in discovery order, number of edges)"""
    seen = {}
    for t in start:
        seen.setdefault(t, 0)
    frontier = list(seen)
    edges = 0
    for d in range(1, depth + 1):
        nxt = []
        for t in frontier:
            for _, f in ctxs:
                u = f(t)
                if u is None:
                    continue
                edges += 1
                if u not in seen:
                    seen[u] = d
                    nxt.append(u)
        frontier = nxt
    return list(seen), edges
