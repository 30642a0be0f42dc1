"""C22  concurrent use gives the same results as sequential use"""
from collections import OrderedDict
import gc
import pickle
from .. import ops
from ..ops import D, T, code
from ..core import Space, require, STAT
from ..sched import Run
from .c21 import in_child
from datashape import lexer, parser, typesets
from datashape.util import testing
from datashape import util as U
import numpy as np

PROPERTY = 'C22'
TECHNIQUE = ('stateless exploration of the real code under a controlled scheduler: two real threads, one running at a time, every '
             'placement of up to one (thorough: two) preemptions at every source line of the library; every '
             'schedule starts in a fresh forked process, and its results are compared with those of the operations alone')
NOTE = ('Exhaustive within the preemption bound and the granularity, for the code of the library itself; NumPy, dateutil and '
        'multipledispatch calls are atomic steps.')
BOUNDS = {'quick': '2 threads; 1 preemption at every line of 57 operations by each operation of its kind, of 29 by all of them in turn, of the short ones by each; 2 preemptions for 28 short operations with themselves',
          'thorough': '1 preemption at every line of 29 operations by each of 57, and of 28 by each of its kind; 2 preemptions for all pairs of the short operations; 3 threads of 28 short operations'}

X = OrderedDict()


def op(name, f):
    X[name] = f


op('read', lambda w: D.dshape('3 * {a: ?int32}'))
op('read alias', lambda w: D.dshape('var * real'))
op('read map', lambda w: D.dshape('map[int32, string["A"]]'))
op('read bad', lambda w: D.dshape('3 * nosuch'))
op('parse sym', lambda w: parser.parse('(M * T)', w['sym']))
op('lex', lambda w: list(lexer.lex('3 * "a\\n"')))
op('lex bad', lambda w: list(lexer.lex('int32 $')))
op('str rec', lambda w: str(w['rec']))
op('repr arr', lambda w: repr(w['arr']))
op('pprint arr', lambda w: D.pprint(w['arr'], 10))
op('str cat', lambda w: str(w['cat']))
op('hash rec', lambda w: hash(w['rec']))
op('hash opt', lambda w: hash(w['opt']))
op('eq arr', lambda w: [w['arr'] == w['again']['arr'], w['arr'] != w['rec']])
op('dict', lambda w: {w['rec']: 1, w['tup']: 2}.get(w['again']['tup']))
op('subshape', lambda w: w['arr'].subshape[1:3, 0, 'y'])
op('record', lambda w: [w['rec'].measure.names, w['rec'].measure.types, w['rec'].measure['b']])
op('make', lambda w: T.Record([('a', T.int32), ('b', w['rec'])]))
op('mul', lambda w: 3 * w['rec'])
op('to_numpy', lambda w: T.to_numpy(w['arr']))
op('from_numpy', lambda w: T.from_numpy((3,), np.dtype([('a', 'i4'), ('b', 'M8[s]')])))
op('discover', lambda w: D.discover([[1, 2.5], [None, 3]]))
op('discover dict', lambda w: D.discover([{'a': '1 day'}, {'a': '2000-01-01', 'b': True}]))
op('promote', lambda w: D.promote(w['opti'], w['f64']))
op('validate', lambda w: D.validate('{a: string}', {'a': 'x'}))
op('copy', lambda w: pickle.loads(pickle.dumps(w['uni'])))
op('assert', lambda w: testing.assert_dshape_equal(w['dtz'], w['td']))
op('predicates', lambda w: [D.isfixed(w['arr']), D.has_ellipsis(w['fun']), D.isrecord(w['rec']), D.isnumeric(w['opti'])])
op('typesets', lambda w: [D.maxtype(T.int8), typesets.supertype(T.float32), T.int32 in typesets.numeric])
# the same operations on other data
op('read 2', lambda w: D.dshape('var * {b: string, a: (M * T, ?date)}'))
op('read bad 2', lambda w: D.dshape('var * {a: int32, a: string}'))
op('parse sym 2', lambda w: parser.parse('{x: M * T}', D.TypeSymbolTable()))
op('lex 2', lambda w: list(lexer.lex('"b\\t" : [5]')))
op('str rec 2', lambda w: str(w['fun']))
op('repr arr 2', lambda w: repr(w['tup']))
op('pprint 2', lambda w: D.pprint(w['swap'][2], 20))
op('hash 2', lambda w: [hash(w['tup']), hash(w['again']['fun']) == hash(w['fun'])])
op('eq 2', lambda w: [w['tup'] == w['again']['tup'], w['fun'] != w['tup'], w['swap'][2] == w['swap'][3]])
op('subshape 2', lambda w: w['swap'][2].subshape[0:2, ['z', 'c']])
op('record 2', lambda w: [w['swap'][2].measure.names, w['swap'][2].measure.types, w['swap'][2].measure['c']])
op('make 2', lambda w: [T.Record([('z', w['rec']), ('y', T.string)]), T.Tuple([w['rec'], T.int8])])
op('make dup', lambda w: T.Record([('a', T.int32), ('a', T.string)]))
op('mul 2', lambda w: T.var * w['tup'])
op('to_numpy 2', lambda w: T.to_numpy(D.dshape('2 * {q: string[3], a: float32}')))
op('from_numpy 2', lambda w: T.from_numpy((), np.dtype([('q', 'S3'), ('r', '2f8')])))
op('discover 2', lambda w: D.discover([['x', '1 day'], ['y', 'true'], ['z', '5']]))
op('discover 3', lambda w: D.discover((('a', 1, None), ('b', 2.5, True))))
op('discover dict 2', lambda w: D.discover([{'c': 1, 'd': [1, 2]}, {'c': 2.5, 'd': [3]}, {'e': None, 'c': 1}]))
op('discover dict 3', lambda w: D.discover(OrderedDict([('p', [{'a': 1}]), ('q', 'x')])))
op('promote 2', lambda w: [D.promote(T.int8, T.Option(T.uint16)), D.promote(T.String(3), T.String(5))])
op('validate 2', lambda w: [D.validate('{c: int, d: string}', {'c': 1}), D.validate('2 * real', [1.5, 2.5])])
op('copy 2', lambda w: [pickle.loads(pickle.dumps(w['cat'], 2)), T.Record(*w['rec'].measure.parameters)])
op('assert 2', lambda w: testing.assert_dshape_equal(w['swap'][2], w['swap'][3], check_record_order=False))
op('assert 3', lambda w: testing.assert_dshape_equal(w['fun'], w['again']['fun']))
op('predicates 2', lambda w: [D.ishomogeneous(w['tup']), D.istabular(w['swap'][2]), D.iscollection(w['rec']), D.has_var_dim(w['fun']), D.isfixed(w['tup'])])
op('collect', lambda w: [list(U.collect(lambda x: isinstance(x, T.CType), w['swap'][2])), U.cat_dshapes([w['arr'], w['again']['arr']])])
op('typesets 2', lambda w: [D.maxtype(T.Option(T.uint8)), typesets.lookup('real'), typesets.signed | typesets.boolean, typesets.matches_typeset((T.int8,), (typesets.integral,))])
NAMES = list(X)
FIRST = NAMES[:NAMES.index('read 2')]
KIN = {}
for _n in NAMES:
    KIN.setdefault(_n.split()[0], []).append(_n)

_B = {}
SINGLE = []


def perform(n, w):
    try:
        r = X[n](w)
    except Exception as e:
        r = e
    return code(r)


def base():
    if not _B:
        w = _B['w'] = ops.world()
        gc.collect()
        gc.disable()
        gc.freeze()
        _B['world'] = in_child(lambda: ops.snapshot(w))
        for n in NAMES:
            _B[n] = in_child(lambda: perform(n, w))
            _B[n, False] = in_child(lambda: count(n, w, False))
            if _B[n][0] in ('died', 'crash') or not isinstance(_B[n, False], int):
                raise RuntimeError('%s: %s' % (n, _B[n]))
    return _B


def count(n, w, oc):
    r = Run([lambda: perform(n, w)], [(0, None)], oc)
    r.go()
    return r.steps[0]


def schedule(a, b, segs, oc, w):
    """in a process of its own -> None or what went wrong"""
    r = Run([lambda: perform(a, w), lambda: perform(b, w)], segs, oc)
    if not r.go():
        return 'did not finish'
    for i, n in enumerate((a, b)):
        if r.result[i] != _B[n]:
            return '%r in thread %d gave %s\n  rather than %s' % (n, i, repr(r.result[i])[:500], repr(_B[n])[:500])


def snap(w):
    s = ops.snapshot(w)
    if s != _B['world']:
        bad = [(x, y) for x, y in zip(s, _B['world']) if x != y]
        return '%s changed: %r' % (bad[0][0][0], bad[0][0][1])


def one(case):
    """one preemption of a by b at every point"""
    a, b, oc = case       # schedule points are lines: opcode events crash CPython 3.12 when threads trade places
    B = base()
    n = B[a, oc]
    batch = 1 if a == b or SINGLE else 8            # schedules in one process
    for k0 in range(1, n + 1, batch):
        def go():
            w = B['w']
            for k in range(k0, min(k0 + batch, n + 1)):
                m = schedule(a, b, [(0, k), (1, None), (0, None)], oc, w)
                if m:
                    return 'at point %d of %d by %r: %s' % (k, n, b, m)
            return snap(w) if k % 8 == 0 or batch > 1 else None
        m = in_child(go)
        require(not m, '%r preempted %s', a, m)
    STAT.add('states', n)
    STAT.add('transitions', 3 * n)
    STAT.add('traces', n)
    return 'same'


def two(case):
    """a runs k points, b runs j points, a runs on to its end, b too"""
    a, b = case
    B = base()
    n, m = B[a, False], B[b, False]
    for k in range(1, n + 1):
        def go():
            for j in range(1, m + 1):
                w = ops.world()
                r = schedule(a, b, [(0, k), (1, j), (0, None), (1, None)], False, w)
                if r:
                    return '%r after %d points, %r after %d points: %s' % (a, k, b, j, r)
        r = in_child(go)
        require(not r, '%s', r)
    STAT.add('states', n * m)
    STAT.add('transitions', 4 * n * m)
    STAT.add('traces', n * m)
    return 'same'


def three(case):
    """a runs k points, another a j points, a third one to its end, then the others"""
    a, _ = case
    B = base()
    n = B[a, False]
    for k in range(1, n + 1):
        def go():
            for j in range(1, n + 1):
                w = ops.world()
                r = Run([lambda: perform(a, w)] * 3, [(0, k), (1, j), (2, None), (1, None), (0, None)])
                if not r.go():
                    return 'did not finish'
                if r.result != [B[a]] * 3:
                    return '%r after %d points, %d points: %s\n  rather than %s' % (a, k, j, repr(r.result)[:900], repr(B[a])[:500])
        r = in_child(go)
        require(not r, '%s', r)
    STAT.add('states', n * n)
    STAT.add('transitions', 5 * n * n)
    STAT.add('traces', n * n)
    return 'same'


def mix(case):
    """one preemption of a at every point, by all the operations one after another"""
    a, back = case
    B = base()
    n = B[a, False]
    order = FIRST + KIN[a.split()[0]]
    order = order[::-1] if back else order
    for k in range(1, n + 1):
        def go():
            w = B['w']
            r = Run([lambda: perform(a, w), lambda: [perform(b, w) for b in order]], [(0, k), (1, None), (0, None)])
            if not r.go():
                return 'did not finish'
            if r.result[0] != B[a]:
                return 'gave %s\n  rather than %s' % (repr(r.result[0])[:500], repr(B[a])[:500])
            for b, x in zip(order, r.result[1]):
                if x != B[b]:
                    return '%r gave %s\n  rather than %s' % (b, repr(x)[:500], repr(B[b])[:500])
            return snap(w)
        m = in_child(go)
        require(not m, '%r preempted at point %d of %d by all operations: %s', a, k, n, m)
    STAT.add('states', n * len(order))
    STAT.add('transitions', (2 + len(order)) * n)
    STAT.add('traces', n)
    return 'same'


def spaces(tier):
    B = base()
    SINGLE[:] = [1] * (tier != 'quick')

    def big(cs):
        return sorted(cs, key=lambda c: -B[c[0], False] * (B[c[1], False] if c[1] in NAMES else 1))
    small = [n for n in NAMES if B[n, False] <= (60 if tier == 'quick' else 90)]
    rule1 = 'every source line of the first operation as the point of preemption'
    out = [Space('one preemption by all', big([(a, k) for a in (FIRST if tier == 'quick' else NAMES) for k in ([False] if tier == 'quick' else [False, True])]), mix, rule=rule1)]
    if tier == 'quick':
        out.append(Space('one preemption', big([(a, b, False) for a in NAMES for b in KIN[a.split()[0]]] + [(a, b, False) for a in small if a in FIRST for b in FIRST if b not in KIN[a.split()[0]]]), one, rule=rule1))
        out.append(Space('two preemptions', big([(n, n) for n in NAMES if B[n, False] <= 100]), two, rule='every pair of source lines of both'))
    else:
        out.append(Space('one preemption', big([(a, b, False) for a in NAMES for b in (NAMES if a in FIRST else KIN[a.split()[0]])]), one, rule=rule1))
        out.append(Space('two preemptions', big([(a, b) for a in small for b in small]), two, rule='every pair of source lines of both'))
        out.append(Space('three threads', big([(n, n) for n in NAMES if B[n, False] <= 100]), three, rule='the first preempted by the second, that one by the third, at every pair of source lines'))
    return out
