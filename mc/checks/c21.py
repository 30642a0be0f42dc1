"""C21  using types changes nothing and history does not matter"""
import gc
import os
import pickle
import signal
from .. import ops
from ..core import Space, require, Violation, STAT, _progress

PROPERTY = 'C21'
TECHNIQUE = ('exhaustive stateless exploration of all operation histories up to a length on the real code: the tree of histories is '
             'walked by forking the process at every node, so every history starts from the same fresh state; the outcome of every '
             'operation is compared with its outcome in the fresh state, and everything reachable is compared before and after')
NOTE = ('Exhaustive over the alphabet and the lengths. Histories end in a read-only comparison of every shared type, container, '
        'symbol table and registry; defining new names is the subject of C23.')
BOUNDS = {'quick': 'all histories of 2 of 190 operations, of 3 of 26 operations; histories of all operations in both orders after each; 300 repetitions of each',
          'thorough': 'all histories of 3 of 100 operations'}

ALL = list(ops.OPS)
DEEP = ['read0', 'read1', 'read3', 'bad0', 'bad3', 'bad5', 'dshape of ds', 'parse sym', 'lex part', 'str rec', 'pprint arr', 'hash rec', 'hash opt', 'eq',
        'assert ne', 'record', 'subshape', 'subshape bad', 'mul', 'Record', 'to_numpy', 'from_numpy', 'discover rows', 'discover dicts', 'promote', 'copy rec']
_BASE = {}
_PIPE = [None]


def in_child(f, limit=120):
    """run f in a forked copy of this process; -> what it returned"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            data = pickle.dumps(f())
            with os.fdopen(wr, 'wb') as h:
                h.write(data)
            code = 0
        except BaseException as e:
            import traceback
            try:
                os.write(wr, pickle.dumps(('crash', traceback.format_exc())))
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        return ('died', 'did not terminate' if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM else 'exit status %d' % status)
    return pickle.loads(data)


def base():
    if not _BASE:
        w = ops.world()
        _BASE['world'] = in_child(lambda: ops.snapshot(w))
        for n in ALL:
            _BASE[n] = in_child(lambda: ops.perform(n, w))
            if isinstance(_BASE[n], tuple) and _BASE[n][0] in ('died', 'crash'):
                raise RuntimeError('%s: %s' % (n, _BASE[n]))
        _BASE['w'] = w
        gc.collect()
        gc.disable()
        gc.freeze()
    return _BASE


def differs(a, b):
    return 'gave %s\n  rather than %s' % (repr(a)[:600], repr(b)[:600])


def node(hist, alphabets, w):
    """runs in a process of its own, in the state after hist[:-1]"""
    b = _BASE
    r = ops.perform(hist[-1], w)
    if r != b[hist[-1]]:
        return 'after %s the operation %r %s' % (list(hist[:-1]), hist[-1], differs(r, b[hist[-1]]))
    if alphabets:
        for n in alphabets[0]:
            m = in_child(lambda: node(hist + (n,), alphabets[1:], w))
            if m:
                return m if isinstance(m, str) else 'after %s: %r' % (list(hist) + [n], m)
    s = ops.snapshot(w)
    if s != b['world']:
        bad = [(x, y) for x, y in zip(s, b['world']) if x != y]
        return 'after %s %s is different: %s' % (list(hist), bad[0][0][0], differs(bad[0][0][1], bad[0][1][1]))


def tree(name, first, alphabets):
    b = base()
    total = 0
    k = 1
    for a in [first] + alphabets:
        k *= len(a)
        total += k

    def run(n):
        m = in_child(lambda: node((n,), alphabets, b['w']), 600)
        require(not m, '%s', m)
        STAT.add('states', total // len(first))
        STAT.add('transitions', total // len(first))
        STAT.add('traces', total // len(first))
        return 'unchanged'
    return Space(name, list(first), run, rule='every history of %d operations over alphabets of %s' % (1 + len(alphabets), [len(first)] + [len(a) for a in alphabets]))


def linear(seqs, b):
    w = b['w']
    hist = []
    for n in seqs:
        hist.append(n)
        r = ops.perform(n, w)
        if r != b[n]:
            return 'as number %d of %s ... the operation %r %s' % (len(hist), hist[:6], n, differs(r, b[n]))
    s = ops.snapshot(w)
    if s != b['world']:
        bad = [(x, y) for x, y in zip(s, b['world']) if x != y]
        return 'after %s %s is different: %s' % (hist[:8], bad[0][0][0], differs(bad[0][0][1], bad[0][1][1]))


def longrun(case):
    n, kind = case
    b = base()
    k = ALL.index(n)
    if kind == 'rotate':
        seq = ALL[k:] + ALL[:k]
    elif kind == 'reverse':
        seq = (ALL[k:] + ALL[:k])[::-1]
    else:
        seq = [n] * 300
    m = in_child(lambda: linear(seq, b), 600)
    require(not m, '%s', m)
    STAT.add('states', len(seq))
    STAT.add('transitions', len(seq))
    STAT.add('traces', 1)
    return kind


def _fam():
    D, T, code, w = ops.D, ops.T, ops.code, _BASE['w']
    import datetime
    import numpy as np
    from datashape import lexer, parser, typesets
    from datashape import util as U
    from datashape.util import testing
    ds = D.dshape
    rec = lambda i: T.DataShape(T.Record([('a', T.int32), ('f%d' % i, T.float64)]))
    arr = lambda i: T.DataShape(i, 5, rec(i).measure)

    def tried(f):
        try:
            return f()
        except Exception as e:
            return e
    return [
        ('read', lambda i: ds('%d * {f%d: int32}' % (i, i))),
        ('read numbers', lambda i: [ds('%d * int32' % i), ds('string[%d]' % (i + 1))]),
        ('read bad', lambda i: tried(lambda: ds('%d * nosuch%d' % (i, i)))),
        ('parse', lambda i: parser.parse('(M%d * int32)' % i, w['sym'])),
        ('lex', lambda i: list(lexer.lex('%d * x%d "s%d"' % (i, i, i)))),
        ('print', lambda i: [str(arr(i)), repr(arr(i)), D.pprint(arr(i), 20)]),
        ('hash', lambda i: [hash(rec(i)) == hash(rec(i)), len({arr(i): 1, arr(i + 1): 2, arr(i): 3})]),
        ('compare', lambda i: [arr(i) == arr(i), arr(i) == arr(i + 1), rec(i) != rec(i + 1), rec(i).measure == rec(i).measure]),
        ('fields', lambda i: [rec(i).measure['f%d' % i], tried(lambda: rec(i).measure['f%d' % (i + 1)]), rec(i).measure.names, rec(i).measure.dict]),
        ('subshape', lambda i: [arr(i).subshape[:, 2], arr(i).subshape[:, 2, 'f%d' % i], tried(lambda: arr(i).subshape[i]), arr(i + 3).subshape[1:i + 2], rec(i).subshape[['f%d' % i, 'a']]]),
        ('subarray', lambda i: [arr(i).subarray(1), arr(i).subarray(0)]),
        ('make', lambda i: [T.Option(arr(i)), T.Tuple([rec(i), T.int32]), T.Function(rec(i), T.string), T.Map(T.string, rec(i)), i * rec(i), T.TypeVar('T%d' % i), T.Categorical(['c%d' % i], T.string)]),
        ('R', lambda i: T.R['f%d' % i:'int32', 'b':'%d * string' % i]),
        ('numpy', lambda i: [T.to_numpy(arr(i)), T.to_numpy_dtype(T.String(i + 1, 'A')), T.to_numpy_dtype(rec(i))]),
        ('from numpy', lambda i: [T.from_numpy((i, 2), np.dtype([('f%d' % i, 'i4')])), T.from_numpy((), np.dtype('S%d' % (i + 1)))]),
        ('discover lists', lambda i: D.discover([[i] * (i % 50)])),
        ('discover texts', lambda i: [D.discover(str(i)), D.discover('x%d' % i), D.discover('%d.5' % i), D.discover('%d days' % i), D.discover('%04d-01-01' % (i + 1))]),
        ('discover dicts', lambda i: [D.discover({'f%d' % i: i}), D.discover([{'a': 1, 'f%d' % i: 'x'}, {'a': 2.5}])]),
        ('discover arrays', lambda i: [D.discover(np.zeros((i % 70, 2), 'i4')), D.discover(np.array(['x' * (i % 70 + 1)], dtype=object))]),
        ('discover columns', lambda i: [D.discover([(i, 'a'), (i + 0.5, None)]), D.discover([i, None]), D.discover([i, i + 0.5])]),
        ('promote', lambda i: [D.promote(T.String(i + 1), T.String(i + 2)), D.promote(T.Option(T.int8), T.Decimal(i % 18 + 1)), D.promote(T.int8 if i % 2 else T.float32, T.uint16)]),
        ('predicates', lambda i: [D.isrecord(rec(i)), D.istabular(arr(i)), D.isfixed(arr(i)), D.ishomogeneous(T.Tuple([T.String(i + 1), T.String(i % 2 + 1)])), D.isnumeric('%d * int32' % i), D.iscollection(arr(i))]),
        ('search', lambda i: [D.has_var_dim(arr(i)), D.has_ellipsis('%d * var * int32' % i), list(U.collect(lambda x: isinstance(x, T.Fixed), arr(i)))]),
        ('assert', lambda i: [tried(lambda: testing.assert_dshape_equal(arr(i), arr(i))), tried(lambda: testing.assert_dshape_equal(arr(i), arr(i + 1))),
                              tried(lambda: testing.assert_dshape_equal(rec(i), rec(i + 1), check_record_order=False)), tried(lambda: testing.assert_dshape_equal(T.String(i + 1), T.String(i + 2), check_str_fixlen=False))]),
        ('validate', lambda i: [D.validate('{f%d: int}' % i, {'f%d' % i: i}), D.validate('{f%d: int}' % i, {'f%d' % (i + 1): i}), D.validate('%d * int' % i, [1] * i), D.validate('int', i), D.validate('string', 'x%d' % i)]),
        ('type sets', lambda i: [typesets.TypeSet(T.int32, T.String(i + 1)), T.String(i + 1) in typesets.TypeSet(T.int32, T.String(i + 1)), T.String(i + 2) in typesets.TypeSet(T.String(i + 1)),
                                 D.maxtype(T.Decimal(i % 30 + 1)), tried(lambda: D.maxtype(T.String(i + 1))), typesets.lookup('s%d' % i)]),
        ('copy', lambda i: [pickle.loads(pickle.dumps(arr(i), i % 5)), T.Record(rec(i).measure.fields), eval(repr(i * T.int32), {'dshape': ds})]),
        ('concatenate', lambda i: [U.cat_dshapes([i * T.String(i + 1), 3 * T.String(i + 1)]), tried(lambda: U.cat_dshapes([arr(i), arr(i + 1)]))]),
        ('look up', lambda i: [tried(lambda: T.Type.lookup_type('t%d' % i)), T.Type.lookup_type('int%d' % (8 << i % 4))]),
    ]


def _alike():
    """groups of calls whose arguments are equal, or equal but for an option: what one of them remembers must not answer another"""
    D, T, w = ops.D, ops.T, _BASE['w']
    import datetime
    from collections import OrderedDict
    from decimal import Decimal
    import numpy as np
    from datashape import lexer, parser, typesets
    from datashape import util as U
    from datashape.util import testing
    ds = D.dshape

    class S(str):
        pass
    out = OrderedDict()

    def group(name, calls):
        out[name] = calls
    ones = [1, 1.0, True, 1 + 0j, np.int8(1), np.uint8(1), np.int64(1), np.uint64(1), np.float16(1), np.float64(1), np.bool_(True), np.complex64(1), np.complex128(1), Decimal(1), '1', S('1')]
    zeros = [0, 0.0, -0.0, False, 0j, np.int16(0), np.float32(0), np.bool_(False)]
    some = [1, 1.0, True, 1 + 0j, np.int8(1), np.int64(1), np.float32(1), np.float64(1)]
    for kind, vals in (('one', ones), ('zero', zeros)):
        group('discover ' + kind, [lambda v=v: D.discover(v) for v in vals])
        for i, f in enumerate([lambda v: [v], lambda v: (v,), lambda v: (v, 'a', 2.5), lambda v: ('a', v), lambda v: [v, None], lambda v: [v, 2.5], lambda v: {'k': v}, lambda v: [{'k': v}],
                               lambda v: [(v, 'a'), (v, 'b')], lambda v: ((v, v), (v, v)), lambda v: [[v], [v, v]], lambda v: frozenset([v]), lambda v: {'k': {'j': v}}, lambda v: OrderedDict([('k', v)]),
                               lambda v: [(1, v), ('x', 2)], lambda v: (v, (v, 'a'))]):
            group('discover %s %d' % (kind, i), [lambda v=v, f=f: D.discover(f(v)) for v in (some if kind == 'one' else zeros)])
    group('discover containers', [lambda v=v: D.discover(v) for v in ((1, 'a'), [1, 'a'], (1.0, 'a'), ((1, 'a'),), [(1, 'a')], [[1, 'a']], ([1, 'a'],), ('1', 'a'), (np.str_('1'), 'a'), {1: 'a'}, ())])
    group('discover mappings', [lambda v=v: D.discover(v) for v in (OrderedDict([('a', 1), ('b', 2.5)]), OrderedDict([('b', 2.5), ('a', 1)]), {'a': 1, 'b': 2.5}, {'b': 2.5, 'a': 1}, {'a': 1.0, 'b': 2.5},
                                                                    {'a': True, 'b': 2.5}, OrderedDict([('b', 2.5), ('a', 1.0)]))])
    group('discover texts', [lambda v=v: D.discover(v) for v in ('a', S('a'), np.str_('a'), b'a', np.bytes_(b'a'), '1', b'1', '1.0', 'True', 'true', 'TRUE', ' 1', '', ' ', '01')])
    utc = datetime.timezone.utc
    group('discover times', [lambda v=v: D.discover(v) for v in (datetime.date(2000, 1, 1), datetime.datetime(2000, 1, 1), datetime.datetime(2000, 1, 1, tzinfo=utc), np.datetime64('2000-01-01'),
                                                                 np.datetime64('2000-01-01T00', 'h'), np.datetime64('2000-01-01', 's'), '2000-01-01', '2000-01-01T00:00:01', datetime.time(0), '00:00:00')])
    group('discover differences', [lambda v=v: D.discover(v) for v in (datetime.timedelta(1), np.timedelta64(1, 'D'), np.timedelta64(24, 'h'), np.timedelta64(86400, 's'), '1 day', '24 hours')])
    arrays = [np.array([1, 0], d) for d in ('i1', 'u1', 'i8', 'f4', 'f8', 'c8', '?', 'O', '>i8', 'm8[s]', 'm8[D]')] + [np.array([[1], [0]]), np.array([1]), np.array(1), np.array(['1', '0']), np.array([b'1', b'0']), np.array(['1', '0'], 'O')]
    group('discover arrays', [lambda v=v: D.discover(v) for v in arrays])
    group('from numpy', [lambda s=s, d=d: T.from_numpy(s, np.dtype(d)) for s in ((), (1,), (True,), (2, 1)) for d in ('i4', '>i4', 'i8', 'f8', 'O', 'S1', 'U1', 'M8[s]', 'M8[D]', 'm8[s]', [('a', 'i4')], [('a', 'i8')], [('a', '>i4')])])
    few = [T.int8, T.int64, T.uint8, T.float32, T.complex64, T.bool_, T.string, T.String(3), T.date_, T.datetime_, T.Decimal(4, 0)]
    for i, a in enumerate(few):
        group('promote %d' % i, [lambda x=x, y=y, f=f: D.promote(x, y, **f) for b in few[i:i + 5] for x, y in ((a, b), (b, a), (T.Option(a), b), (b, T.Option(a)), (T.DataShape(T.Option(a)), T.DataShape(b)))
                                 for f in ({}, {'promote_option': False})])
    group('optionify', [lambda x=x, y=y, z=z: D.optionify(x, y, z) for x in (T.int8, T.Option(T.int8), ds('int8')) for y in (T.int8, T.Option(T.string)) for z in (T.int8, ds('int8'), T.Option(T.int8))])
    other = D.TypeSymbolTable()
    for k, v in list(other.dtype.items()):
        if k == 'int32':
            other.dtype[k] = T.string
    other.dtype['thing'] = T.int8
    group('parse', [lambda s=s, y=y: parser.parse(s, y) for s in ('int32', ' int32', '3 * int32', 'thing', '{a: int32}', '?int32') for y in (D.type_symbol_table.sym, w['sym'], w['bare'], other)] + [lambda: ds('int32'), lambda: ds('3 * int32'), lambda: ds('thing')])
    group('dshape', [lambda v=v: ds(v) for v in ('3 * int32', (3, T.int32), [3, T.int32], [3, 'int32'], (True, T.int32), (1, T.int32), [T.Fixed(1), T.int32], ds('1 * int32'), T.int32, 'int32', ds('int32'), [T.int32], T.Fixed(3), 3, S('int32'))])
    vals = [1, 1.0, True, '1', np.int64(1), np.float64(1), None, 1j]
    for i, s in enumerate(('int', 'real', 'bool', 'string', T.int32, T.int64, T.float64, ds('int64'), ('int', 'string'), ('string', 'int'), int, float, bool, (int, str))):
        group('validate %d' % i, [lambda v=v: D.validate(s, v) for v in vals])
    for i, s in enumerate(('var * int64', '1 * int64', '1 * float64', '{a: int64}', '{a: float64}', 'var * {a: int64}')):
        group('validate in %d' % i, [lambda v=v: D.validate(s, v) for x in (1, 1.0, True, '1') for v in ([x], (x,), {'a': x}, [{'a': x}], [[x]], [(x,)])])
    group('subschema', [lambda x=x, y=y: D.issubschema(x, y) for x in ('int32', T.int32, ds('int32'), '?int32') for y in ('int32', T.int32, 'int64')])
    arr = w['arr']
    group('subshape', [lambda i=i: arr.subshape[i] for i in (1, True, 1.0, np.int64(1), (1,), [1], [True], (1, 1), [1, 1], slice(1), slice(1, None), slice(None, 1), slice(0, 1), slice(0, 1, 1), slice(0, 1, -1), (1, 1, 'x'), (1, 1, ['x']),
                                                              (slice(None), 1), (None, 1), (0, 1, 'y'), (0, 1, 0), (0, 1, [0]), (0, 1, [True]), (), None, -1, [-1])])
    rec = ds('{a: int32, b: 2 * string, c: float64}')
    group('fields', [lambda i=i: rec.subshape[i] for i in (0, False, 1, True, 'a', 'b', S('a'), ['a'], [0], [False], ['a', 'b'], ['b', 'a'], [0, 1], [1, 0], slice(1), slice(0, 1), slice(None, None, -1))])
    group('subarray', [lambda k=k, x=x: x.subarray(k) for x in (arr, w['again']['arr'], w['var']) for k in (0, False, 1, True, 2, 1.0)])
    flags = ['check_tz', 'check_timedelta_unit', 'check_str_encoding', 'check_str_fixlen', 'check_dim', 'check_record_order']
    pairs = [('3 * int32', '4 * int32'), ('string[3]', 'string[4]'), ("string['A']", 'string'), ("datetime[tz='A']", 'datetime'), ("timedelta['s']", "timedelta['ms']"), ('{a: int32, b: int8}', '{b: int8, a: int32}'), ('int32', 'int32')]
    for i, (x, y) in enumerate(pairs):
        group('assert %d' % i, [lambda a=a, b=b, k=k: testing.assert_dshape_equal(ds(a), ds(b), **k) for a, b in ((x, y), (y, x), (x, x)) for k in [{}] + [{f: False} for f in flags] + [{f: True} for f in flags[:2]] + [dict.fromkeys(flags, False)]])
    for k in ('rec', 'arr', 'fun', 'tup'):
        group('pprint ' + k, [lambda n=n, o=o: D.pprint(o, n) for o in (w[k], w['again'][k], w[k].measure) for n in (0, 1, True, 1.0, 10, 20, 30, 40, 80)] + [lambda: D.pprint(w[k]), lambda: str(w[k]), lambda: repr(w[k]), lambda: str(w[k].measure)])
    group('numbers', [lambda f=f, v=v: f(v) for f in (T.Fixed, T.String, T.Decimal, lambda v: v * T.int32, lambda v: T.DataShape(v, T.int32), lambda v: T.Categorical([v]), lambda v: T.Categorical([v, 2], T.float64), lambda v: T.Categorical((v,))) for v in (1, True, 1.0, np.int8(1), '1')])
    group('construct', [lambda f=f, v=v: f(v) for f in (T.Option, lambda v: T.Tuple([v]), lambda v: T.Map(v, v), lambda v: T.Record([('a', v)]), T.DataShape, lambda v: 3 * ds(v), lambda v: T.Function(v, v)) for v in (T.int32, ds('int32'), 'int32', T.Option(T.int32), ds('3 * int32'))])
    group('units', [lambda u=u: T.TimeDelta(u) for u in ('s', 'second', 'seconds', ' s', 'S', 'm', 'M', 'minute', 'month', 'ms', 'D', 'd', 'day', S('s'), np.str_('s'))])
    group('encodings', [lambda a=a: T.String(*a) for a in ((), (None,), (None, None), ('A',), (None, 'A'), (3,), (3, 'A'), (3, None), ('utf-8',), ('U8',), (3, 'utf8'), ('a',), (True,))])
    same = [x for k in ('i32', 'f64', 'opti', 'rec', 'arr', 'var', 'ell', 'tv', 'dec', 'td', 'map') for x in (w[k], w[k].measure, w['again'][k], str(w[k]))]
    for f in (D.isscalar, D.isrecord, D.isnumeric, D.isreal, D.isboolean, D.isdatelike, D.iscollection, D.istabular, D.isfixed, D.ishomogeneous, D.has_var_dim, D.has_ellipsis):
        group(f.__name__, [lambda x=x, f=f: f(x) for x in same])
    for f in (T.to_numpy, T.to_numpy_dtype, D.maxtype, typesets.supertype, lambda x: x.to_numpy_dtype(), lambda x: U.cat_dshapes([x, x]), lambda x: x in typesets.real, lambda x: typesets.matches_typeset(x, typesets.real)):
        group('numpy %d' % len(out), [lambda x=x, f=f: f(x) for x in same if not isinstance(x, str)])
    preds = [lambda x: isinstance(x, T.Fixed), lambda x: isinstance(x, T.CType), lambda x: isinstance(x, T.Var), lambda x: True, lambda x: False, lambda x: isinstance(x, T.Record)]
    group('collect', [lambda p=p, x=x: list(U.collect(p, x)) for p in preds for x in (arr, w['rec'], w['var'], [arr, T.int32])])
    group('lex', [lambda s=s: list(lexer.lex(s)) for s in ('a', ' a', 'a ', 'A', '"a"', "'a'", 'True', 'true', '1', '01', '1 1', '11')])
    group('cat', [lambda c=c: T.Categorical(*c) for c in (([1, 2],), ([1.0, 2.0],), ([True, 2],), ((1, 2),), (['1', '2'],), ([1, 2], T.int8), ([1, 2], T.float64), ([1, 2], T.int64, True), ([1, 2], T.int64, 1), ([2, 1],))])
    group('type set', [lambda c=c: typesets.TypeSet(*c) for c in ((T.int32,), (ds('int32'),), (T.int32, T.int8), (T.int8, T.int32), (T.int32, T.int32), ())])
    group('register', [lambda n=n: T.Type.lookup_type(n) for n in ('int', 'int32', S('int'), 'real', 'float64', 'float', 'string', 'complex64', 'complex[float32]', 'nope')])
    return out


def alike(name):
    """each call of the group after each other one, against the call alone"""
    def tried(f):
        try:
            return ops.code(f())
        except Exception as e:
            return ops.code(e)
    b = base()

    def first(i):
        tried(calls[i])
        return [None if j == i else in_child(lambda: tried(calls[j])) for j in range(len(calls))]

    def rows(i):
        """after calls[i] all the others, in both directions and without a fresh state in between"""
        res = []
        for order in (range(len(calls)), reversed(range(len(calls)))):
            tried(calls[i])
            res.append(sorted((j, tried(calls[j])) for j in order))
        s = ops.snapshot(b['w'])
        return res, [x[0] for x, y in zip(s, b['world']) if x != y]
    calls = _alike()[name]
    alone = [in_child(lambda: tried(f)) for f in calls]
    for i in range(len(calls)):
        for k, r in enumerate(in_child(lambda: first(i), 600) if len(calls) <= 40 else []):
            require(k == i or r == alone[k], 'after number %d of %s, number %d %s', i, name, k, differs(r, alone[k]))
        got, changed = in_child(lambda: rows(i), 600)
        for res in got:
            for j, r in res:
                require(r == alone[j], 'after number %d of %s and others, number %d %s', i, name, j, differs(r, alone[j]))
        require(not changed, 'after %s the following are different: %s', name, changed)
    n = len(calls) * (3 * len(calls) if len(calls) <= 40 else 2 * len(calls))
    STAT.add('states', n)
    STAT.add('transitions', n)
    STAT.add('traces', n)
    return 'ok'


def capacity(case):
    """the same argument gives the same before and after k others"""
    name, k = case
    b = base()

    def go():
        w, code = b['w'], ops.code
        f = dict(_fam())[name]
        r = lambda: [code(f(i)) for i in range(k)]
        first = r()
        for n in DEEP:
            x = ops.perform(n, w)
            if x != b[n]:
                return 'after %d of %s: %r %s' % (k, name, n, differs(x, b[n]))
        for what, again in (('again', r()), ('in the other order', [code(f(i)) for i in reversed(range(k))][::-1]), ('twice each', [[code(f(i)), code(f(i))][1] for i in range(k)])):
            for i, (x, y) in enumerate(zip(first, again)):
                if x != y:
                    return '%s number %d of %d, %s, %s' % (name, i, k, what, differs(y, x))
        for i in {0, 1, k // 2, k - 1}:
            if fresh[i] != first[i]:
                return '%s number %d of %d %s' % (name, i, k, differs(first[i], fresh[i]))
        s = ops.snapshot(w)
        if s != b['world']:
            bad = [(x, y) for x, y in zip(s, b['world']) if x != y]
            return 'after %d of %s %s is different: %s' % (k, name, bad[0][0][0], differs(bad[0][0][1], bad[0][1][1]))
    fresh = {i: in_child(lambda: ops.code(dict(_fam())[name](i))) for i in {0, 1, k // 2, k - 1}}
    m = in_child(go, 600)
    require(not m, '%s', m)
    STAT.add('traces', 1)
    STAT.add('states', 5 * k)
    STAT.add('transitions', 5 * k)
    return 'ok'


def spaces(tier):
    base()
    out = [tree('pairs', ALL, [ALL])]
    if tier == 'quick':
        out.append(tree('triples', DEEP, [DEEP, DEEP]))
    else:
        wide = DEEP + [n for i, n in enumerate(ALL) if n not in DEEP and i % 2 == 0][:100 - len(DEEP)]
        out.append(tree('triples', wide, [wide, wide]))
        small = DEEP[::2]
        out.append(tree('quadruples', small, [small, small, small]))
    out.append(Space('long', [(n, k) for n in ALL for k in ('rotate', 'reverse', 'repeat')], longrun,
                     rule='all operations one after another, starting at each, in both directions; 300 repetitions of each'))
    out.append(Space('alike', list(_alike()), alike, rule='in each group of calls with equal arguments of other types or options: every call after every other one'))
    ks = [10, 33, 65, 130, 260, 520, 1030] + ([2050, 5000] if tier != 'quick' else [])
    out.append(Space('capacity', [(n, k) for k in ks for n, _ in _fam()] + [(n, 2050 if tier == 'quick' else 20000) for n in ('read', 'discover lists', 'hash', 'lex')], capacity,
                     rule='each operation with many different arguments: the same results again, in the other order and in a fresh state'))
    return out
