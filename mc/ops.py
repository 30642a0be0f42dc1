"""A closed alphabet of public operations over one world of shared objects.

Used by C21 (histories), C22 (schedules) and C25 (processes).  `world()` makes a
fresh world, `OPS[name](w)` performs one operation, `code(x)` describes a
result without touching caches (attributes are only read), `snapshot(w)`
describes everything reachable in the world.
"""
import copy
import datetime
import pickle
import re
from collections import OrderedDict
import numpy as np
from . import terms as t

D, T = t.D, t.T
from datashape import lexer, parser, typesets, predicates, error, validation
from datashape.util import testing
from datashape import util as U

TERMS = OrderedDict([
    ('rec', t.rec(('a', t.I32), ('b', t.STR), ('c c', t.opt(t.F64)))),
    ('arr', t.arr(t.rec(('x', t.F64), ('y', t.arr(t.I32, t.F3))), ('F', 4), ('F', 3))),
    ('var', t.arr(t.rec(('name', t.STR), ('n', t.ds(('ct', 'int64')))), ('V',))),
    ('ell', t.arr(t.F64, ('E', 'A'), ('T', 'M'))),
    ('tup', t.tup(t.I32, t.arr(t.STR, ('V',)))),
    ('fun', t.fn([t.arr(t.I32, ('T', 'M')), t.STR], t.opt(t.F64))),
    ('opt', t.opt(t.arr(t.I32, t.F3))),
    ('opti', t.opt(t.I32)),
    ('map', t.mp(t.STR, t.arr(t.F64, ('V',)))),
    ('dtz', t.ds(('dt', 'UTC'))),
    ('td', t.ds(('td', 'ms'))),
    ('str', t.ds(('str', 7, 'A'))),
    ('dec', t.ds(('dec', 9, 2))),
    ('uni', t.ds(('units', 'm/s', t.F64))),
    ('cat', t.ds(('cat', ('a', 'b', 'c'), ('str', None, 'U8'), False))),
    ('tv', t.ds(('tv', 'T'))),
    ('i32', t.I32), ('f64', t.F64), ('string', t.STR),
])


def world():
    w = {k: t.build(v) for k, v in TERMS.items()}
    w['again'] = {k: t.build(v) for k, v in TERMS.items()}      # equal, not identical
    w['pairs'] = [['a', 'int32'], ['b', '3 * string']]
    w['odict'] = OrderedDict([('z', 'int32'), ('a', T.float64)])
    w['rows'] = [[1, 2.5, 'x', None], [2, None, 'y', None]]
    w['dicts'] = [{'a': 1, 'b': '2001-01-01'}, {'a': None}]
    w['ragged'] = [[1, 2], [3], []]
    w['deep'] = [(1, ['a', 'b'], {'k': (True, 1j)}), (2, ['c'], {'k': (False, 2j)})]
    w['texts'] = ['12', '1.5', 'true', '', '12:30:00', '2014-01-01', '3 days', 'word']
    w['idx'] = [0, 2]
    w['names'] = ['c c', 'a']
    w['nparr'] = np.zeros((2, 3), dtype=[('p', 'i4'), ('q', 'S3'), ('r', 'f8', (2,))])
    w['objarr'] = np.array(['x', 'y'], dtype=object)
    w['sym'] = D.TypeSymbolTable()
    w['bare'] = D.TypeSymbolTable(bare=True)
    w['cats'] = ['x', 'y']
    w['swap'] = [t.build(x) for x in (t.rec(('b', t.I32), ('a', t.STR)), t.rec(('a', t.STR), ('b', t.I32)),
                                      t.arr(t.rec(('z', t.rec(('y', t.I32), ('x', t.F64))), ('c', t.I32)), t.V),
                                      t.arr(t.rec(('c', t.I32), ('z', t.rec(('x', t.F64), ('y', t.I32)))), t.V))]
    w['value'] = {'a': 1, 'b': 'x'}
    return w


def code(x, depth=0):
    if isinstance(x, typesets.TypeSet):
        return ('typeset', x.name, tuple(code(i) for i in x.types))
    if isinstance(x, T.Mono):
        try:
            o = t.observe(x)
        except Exception as e:
            return ('broken type', type(e).__name__, str(e))
        return ('type', type(x).__name__, o, getattr(x, 'name', None) if isinstance(x, T.DataShape) else None)
    if isinstance(x, np.ndarray):
        return ('array', x.shape, repr(x.dtype), repr(x.tolist()))
    if isinstance(x, np.dtype):
        return ('dtype', repr(x))
    if isinstance(x, BaseException):
        extra = ()
        if isinstance(x, error.DataShapeSyntaxError):
            extra = (x.lexpos, x.filename, x.lineno, x.col_offset, x.line)
        return ('exc', type(x).__name__, re.sub('0x[0-9a-f]+', '0x', str(x)), extra)
    if isinstance(x, lexer.Token):
        return ('tok', x.id, x.name, x.span, code(x.val))
    if isinstance(x, D.TypeSymbolTable):
        return ('sym',) + tuple(tuple((k, code(v)) for k, v in sorted(getattr(x, s).items())) for s in ('dtype', 'dtype_constr', 'dim', 'dim_constr'))
    if isinstance(x, dict):
        return (type(x).__name__,) + tuple((code(k), code(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(code(i) for i in x)
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted(map(repr, map(code, x))))
    if isinstance(x, (str, bytes, int, float, complex, bool, type(None), slice)) or isinstance(x, np.generic):
        return (type(x).__name__, repr(x))
    if isinstance(x, (datetime.date, datetime.time, datetime.timedelta)):
        return (type(x).__name__, repr(x))
    if isinstance(x, type):
        return ('class', x.__name__)
    if callable(x):
        return ('callable', getattr(x, '__name__', type(x).__name__))
    return ('other', type(x).__name__)


def registered(names=()):
    """name -> type for the registered types; through the private dictionary where there is one, since there is no public way to list them"""
    reg = getattr(T.Type, '_registry', None)
    if isinstance(reg, dict):
        return dict(reg)
    out = {}
    for n in sorted(set(list(names) + dir(T) + list(D.type_symbol_table.sym.dtype) + list(D.type_symbol_table.sym.dtype_constr) +
                        ['complex[float32]', 'complex[float64]', 'object', 'foo', 'bar', 'nope'])):
        try:
            out[n] = T.Type.lookup_type(n)
        except KeyError:
            pass
    return out


SETNAMES = ['signed', 'unsigned', 'integral', 'floating', 'complexes', 'boolean', 'real', 'numeric', 'scalar', 'foo', 'bar']


def registered_sets(names=()):
    """name -> type set"""
    reg = getattr(typesets.registry, 'registry', None)
    if isinstance(reg, dict):
        return dict(reg)
    return dict((n, typesets.lookup(n)) for n in SETNAMES + list(names) if typesets.lookup(n) is not None)


CONSTS = [n for n in dir(T) if isinstance(getattr(T, n), T.Mono)]


def snapshot(w):
    """Everything observable about the world and about the process wide tables"""
    import sys
    dis = sys.modules['datashape.discovery']
    return [(k, code(w[k])) for k in w] + [
        ('global symbols', code(sys.modules['datashape.type_symbol_table'].sym)),
        ('type registry', tuple(sorted((k, code(v)) for k, v in registered().items()))),
        ('type sets', tuple(sorted((k, code(v)) for k, v in registered_sets().items()))),
        ('constants', tuple((n, code(getattr(T, n))) for n in CONSTS)),
        ('bools', code(getattr(dis, 'bools', None)))]


OPS = OrderedDict()


def op(name, f):
    assert name not in OPS
    OPS[name] = f


def _fields():
    ds = D.dshape
    # --- reading
    for i, s in enumerate([
            '3 * var * {a: int32, "b c": ?string[5, "A"]}', '(int32, M * float64) -> ?real', 'A... * (x, 2 * int)'.replace('x', 'bool'),
            'map[string, categorical[["a", "b"], type=string]]', 'units["m", float32]', 'decimal[5, 2]', 'datetime[tz="UTC"]',
            'option[int32]', 'fixed[3] * ?{}', '?()', 'char', '# c\n int8', 'var * M * T']):
        op('read%d' % i, lambda w, s=s: ds(s))
    for i, s in enumerate(['3 * {a: int32', '3 * nosuch', 'string[-1]', '... * ... * int32', '3 * 4', '{a: int32, a: int32}', 'int32)', '"a', '(int32, ',
                           'timedelta["fortnight"]', 'Decimal[5]', '', 'decimal[x]', '{a: }', '\x00', 'fixed[-1] * int32', 'int32[3]']):
        op('bad%d' % i, lambda w, s=s: ds(s))
    op('read seq', lambda w: [ds(s) for s in ('int32', '3 * int32', 'int32', '{a: int32}', '3 * int32')])
    op('dshapes', lambda w: D.dshapes('int32', '2 * T', 'int32'))
    op('dshape of ds', lambda w: [ds(w['rec']) is w['rec'], ds(T.int32), ds(w['tup'][0]), ds([3, T.int32]), ds((T.var, 'int32'))])
    op('dshape of junk', lambda w: ds(3.5))
    op('parse sym', lambda w: parser.parse('3 * {a: int32}', w['sym']))
    op('parse bare', lambda w: parser.parse('int32', w['bare']))
    op('lex', lambda w: list(lexer.lex('3 * {a: ?int32, "x\\n": -> [true] } # c')))
    op('lex part', lambda w: next(iter(lexer.lex('3 * {a: int32}'))))
    op('lex bad', lambda w: list(lexer.lex('3 * $')))
    # --- printing
    for k in TERMS:
        op('str ' + k, lambda w, k=k: str(w[k]))
        op('repr ' + k, lambda w, k=k: [repr(w[k]), repr(w[k].measure)])
    for k in ('rec', 'arr', 'fun', 'cat'):
        op('pprint ' + k, lambda w, k=k: [D.pprint(w[k], width) for width in (1, 20, 80)])
    # --- comparing
    for k in TERMS:
        op('hash ' + k, lambda w, k=k: [hash(w[k]), hash(w[k].measure), hash(w['again'][k]) == hash(w[k])])
    op('eq', lambda w: [w[a] == w['again'][b] for a in TERMS for b in TERMS])
    op('ne', lambda w: [w[a] != w[b] for a in TERMS for b in ('rec', 'arr', 'opt')])
    op('set', lambda w: [len(set(w[k] for k in TERMS) | set(w['again'].values()))])
    op('eq other', lambda w: [w[a] == b for a in TERMS for b in (3, 'x', None, (), T.int32, object)])
    op('assert eq', lambda w: testing.assert_dshape_equal(w['arr'], w['again']['arr']))
    op('assert ne', lambda w: testing.assert_dshape_equal(w['arr'], w['rec'], check_dim=False))
    op('assert unordered', lambda w: [testing.assert_dshape_equal(x, y, check_record_order=False) for x, y in (
        (w['swap'][0], w['swap'][1]), (w['swap'][1].measure, w['swap'][0].measure), (w['rec'], w['rec']), (w['swap'][2], w['swap'][3]))])
    op('assert unordered ne', lambda w: testing.assert_dshape_equal(w['swap'][0], w['swap'][2], check_record_order=False))
    op('assert cats', lambda w: [testing.assert_dshape_equal(w['cat'], w['again']['cat'], check_ordered=False, check_categories=False),
                                 testing.assert_dshape_equal(w['fun'], w['again']['fun']), testing.assert_dshape_equal(w['map'], w['again']['map'], check_dim=False)])
    op('assert flags', lambda w: testing.assert_dshape_equal(w['dtz'], ds('datetime'), check_tz=False))
    # --- taking apart
    for k in ('rec', 'arr', 'var', 'tup', 'fun', 'opt', 'map', 'cat', 'str'):
        op('parts ' + k, lambda w, k=k: [w[k].shape, w[k].measure, w[k].parameters, len(w[k]), list(w[k]), w[k][-1], w[k].measure.parameters, w[k].measure.info()])
    op('record', lambda w: [w['rec'].measure.names, w['rec'].measure.types, w['rec'].measure.fields, w['rec'].measure.dict, w['rec'].measure['b']])
    op('record no field', lambda w: w['rec'].measure['nope'])
    op('fun parts', lambda w: [w['fun'].measure.argtypes, w['fun'].measure.restype])
    op('mutate results', lambda w: [w['rec'].measure.names.append('zz'), w['rec'].measure.types.pop(), w['rec'].measure.dict.clear(),
                                    w['rec'].measure.names, w['rec'].measure.dict, list(w['rec'].measure.fields)])
    op('subshape', lambda w: [w['arr'].subshape[0], w['arr'].subshape[1:3, ::2, 'y'], w['arr'].subshape[w['idx'], 0], w['var'].subshape[0:3, w['idx'][:1]],
                              w['rec'].subshape[w['names']], w['arr'].subshape[None, 0]])
    op('subshape bad', lambda w: w['arr'].subshape[0, 0, 'nope'])
    op('subshape bad2', lambda w: w['arr'].subshape[1.5])
    op('subarray', lambda w: [w['arr'].subarray(i) for i in range(3)])
    op('subarray bad', lambda w: w['arr'].subarray(5))
    op('itemsize', lambda w: [T.int32.itemsize, w['rec'].measure.types[0].itemsize, T.complex128.itemsize, T.float64.alignment])
    # --- composing
    op('mul', lambda w: [3 * w['rec'], T.var * w['arr'], T.Fixed(3) * T.int32, 2 * (3 * T.string), T.var * (w['opti'][0])])
    op('mul bad', lambda w: T.int32 * T.int32)
    op('mul bad2', lambda w: w['arr'] * w['rec'])
    op('DataShape', lambda w: [T.DataShape(3, w['arr']), T.DataShape(T.var, 'int32'), T.DataShape(w['rec'])])
    op('DataShape bad', lambda w: T.DataShape())
    op('Record', lambda w: [T.Record(w['pairs']), T.Record(w['odict']), T.Record((k, 'int32') for k in 'ab'), T.R['a':'int32', 'b':'3 * T']])
    op('Record dup', lambda w: T.Record([('a', 'int32'), ('a', 'string')]))
    op('Record then change', lambda w: _record_then_change(w))
    op('Tuple', lambda w: [T.Tuple([T.int32, T.string]), T.Function(T.int32, T.string), T.Map('int32', w['rec']), T.Option('3 * int32'), T.Units('m')])
    op('cat then change', lambda w: _cat_then_change(w))
    op('cat bad', lambda w: T.Categorical(['a', 'a'], 'string'))
    op('TypeVar bad', lambda w: T.TypeVar('lower'))
    op('String bad', lambda w: T.String('nope', 'nope2'))
    op('Decimal bad', lambda w: T.Decimal(2, 5))
    op('cat_dshapes', lambda w: U.cat_dshapes([w['arr'], w['again']['arr'], w['arr']]))
    op('cat_dshapes bad', lambda w: U.cat_dshapes([w['arr'], 3 * w['rec']]))
    # --- NumPy
    op('to_numpy', lambda w: [T.to_numpy(w['arr']), T.to_numpy_dtype(ds('{a: int32, b: string[4]}')), T.to_numpy(ds('3 * datetime'))])
    op('to_numpy bad', lambda w: T.to_numpy(w['var']))
    op('to_numpy bad2', lambda w: T.to_numpy_dtype(ds('?int32')))
    op('from_numpy', lambda w: [T.from_numpy((3,), w['nparr'].dtype), T.from_numpy((), np.dtype('M8[s]')), T.from_numpy((2, 2), np.dtype('S5')),
                                T.from_numpy((), np.dtype('m8[ms]'))])
    op('from_numpy bad', lambda w: T.from_numpy((3,), np.dtype('V7')))
    # --- discovering
    for k in ('rows', 'dicts', 'ragged', 'deep', 'texts', 'nparr', 'objarr', 'value'):
        op('discover ' + k, lambda w, k=k: D.discover(w[k]))
    op('discover scalars', lambda w: [D.discover(v) for v in (1, 1.5, True, None, 'a', '1', '', b'x', 1j, datetime.date(2000, 1, 1), datetime.datetime(2000, 1, 1),
                                                              datetime.time(1), datetime.timedelta(1), np.int8(1), np.float32(2), np.timedelta64(1, 'D'))])
    op('discover text', lambda w: [D.discover(s) for s in w['texts']])
    op('discover bad', lambda w: D.discover(object()))
    op('discover bad2', lambda w: D.discover([1, object()]))
    op('discover empty', lambda w: [D.discover([]), D.discover({}), D.discover([[]]), D.discover([None, None])])
    op('discover columns', lambda w: [D.discover([(1, 'a'), (2.5, None)]), D.discover([1, 'a']), D.discover([1, 2.5]), D.discover([datetime.date(2000, 1, 1), datetime.datetime(2000, 1, 1)])])
    op('discover odict', lambda w: D.discover(OrderedDict([('b', 1), ('a', 2)])))
    # --- promoting and predicates
    op('promote', lambda w: [D.promote(w['i32'], w['f64']), D.promote(T.int8, T.uint64), D.promote(w['opti'], w['f64']), D.promote(T.string, T.Option(T.string)),
                             D.promote(w['opti'], w['f64'], promote_option=False), D.optionify(w['opti'], w['f64'], w['f64'])])
    op('promote bad', lambda w: D.promote(w['rec'].measure, T.string))
    op('predicates', lambda w: [[bool(f(w[k])) for f in (D.isscalar, D.isrecord, D.isnumeric, D.isreal, D.isboolean, D.isdatelike, D.iscollection,
                                                         D.istabular, D.isfixed, D.ishomogeneous)] for k in TERMS if k not in ('ell', 'tv')])
    op('var dims', lambda w: [[D.has_var_dim(w[k]), D.has_ellipsis(w[k])] for k in TERMS])
    op('collect', lambda w: [list(U.collect(lambda x: isinstance(x, T.Fixed), w[k])) for k in ('arr', 'opt', 'fun')])
    op('typesets', lambda w: [T.int32 in typesets.signed, len(typesets.numeric), D.maxtype(T.int32), typesets.supertype(T.uint8), D.maxtype(w['opti'].measure),
                              typesets.matches_typeset(T.int32, typesets.integral), typesets.lookup('real'), typesets.registry['boolean']])
    op('maxtype bad', lambda w: D.maxtype(w['rec'].measure))
    op('typeset union', lambda w: [typesets.signed | typesets.floating, sorted(map(str, typesets.signed | typesets.boolean))])
    # --- validating
    op('validate', lambda w: [D.validate('{a: int, b: string}', w['value']), D.validate('3 * int', [1, 2]), D.validate('var * int', [1, 2]),
                              D.validate(w['arr'], [1]), D.validate(('int', 'string'), 'x'), D.validate(w['f64'], 1.5), D.validate('2 * 3 * int32', np.zeros((2, 3), 'i4'))])
    op('validate bad', lambda w: D.validate('{a: ', 1))
    op('issubschema', lambda w: [D.issubschema(w['rec'], w['again']['rec']), D.issubschema('int32', 'int64')])
    op('wellformed', lambda w: validation.validate(w['ell']))
    op('wellformed bad', lambda w: validation.validate(T.DataShape(T.Ellipsis(), T.Ellipsis(), T.int32)))
    # --- copying
    for k in ('rec', 'arr', 'opt', 'cat', 'uni', 'fun'):
        op('copy ' + k, lambda w, k=k: [pickle.loads(pickle.dumps(w[k], n)) for n in (0, 2, 4)] + [copy.copy(w[k]), copy.deepcopy(w[k]), type(w[k].measure)(*w[k].measure.parameters)])
    # --- symbol tables the world owns
    op('sym new', lambda w: parser.parse('int32', D.TypeSymbolTable()))
    op('sym lookup', lambda w: [w['sym'].dtype['int32'], T.Type.lookup_type('int32')])
    op('sym unknown', lambda w: T.Type.lookup_type('nope'))
    op('register taken', lambda w: T.Type.register('int32', T.string))
    op('typeset taken', lambda w: typesets.TypeSet(T.int32, name='real'))
    op('name taken', lambda w: T.DataShape(T.int32, name='int64'))


def _record_then_change(w):
    fields = [['a', T.int32], ['b', T.string]]
    r = T.Record(fields)
    fields[0][0] = 'zz'
    fields.append(['c', T.int32])
    return r


def _cat_then_change(w):
    cats = ['p', 'q']
    c = T.Categorical(cats, T.string)
    cats.append('r')
    return [c, str(c), hash(c) == hash(T.Categorical(['p', 'q'], T.string))]


_fields()


def perform(name, w):
    """-> description of the outcome of the operation"""
    try:
        r = OPS[name](w)
    except RecursionError:
        raise
    except Exception as e:
        r = e
    return code(r)
