"""C27  functions registered for classes answer for their instances everywhere, and for nothing else"""
import datetime as dtm
import itertools
import warnings
import numpy as np
from .. import terms as t
from .. import values as V
from ..core import Space, require, STAT
from .c21 import in_child
from datashape.dispatch import dispatch
from datashape import discovery, user

D, T = t.D, t.T
PROPERTY = 'C27'
TECHNIQUE = ('exhaustive enumeration of histories of registrations (each in a forked process) over a hierarchy of classes, with all probes in between or only '
             'at the end, and of the answers registered functions give times the places their instances are put; a model of the nearest registered class '
             'and of uniting types is compared with every outcome')
NOTE = ('Exhaustive within the alphabet and the lengths stated. Classes derived from lists, tuples and dictionaries, and ambiguous registrations for classes with '
        'several bases, are left open.')
BOUNDS = {'quick': 'all histories of 2 of 36 registrations and of 3 of 12, with and without probes in between; 44 answers in all columns, rows and records of 2, 22 in those of 3',
          'thorough': 'all histories of 3 of 36 registrations; 44 answers in all sequences of 3'}


# ------------------------------------------------------------------ answers
ANSWERS = ([t.ds(m) for m in (('ct', 'int32'), ('ct', 'int64'), ('ct', 'int8'), ('ct', 'float64'), ('ct', 'bool'), ('ct', 'object'), ('str', None, 'U8'), ('str', 7, 'A'), ('bytes',),
                              ('date',), ('dt', None), ('dt', 'UTC'), ('time', None), ('td', 'us'), ('td', 'D'), ('dec', 7, 2), ('null',), ('json',), ('units', 'kg', t.F64),
                              ('cat', ('a', 'b'), t.STR[2], False), ('opt', t.I32), ('opt', t.STR), ('rec', ()), ('rec', (('a', t.I32),)), ('rec', (('a', t.I32), ('b', t.STR))),
                              ('rec', (('b', t.ds(('ct', 'int64'))),)), ('rec', (('a', t.arr(t.I32, t.V)),)), ('tup', ()), ('tup', (t.I32, t.STR)),
                              ('tup', (t.I32,)), ('opt', t.ds(('rec', (('a', t.I32),)))), ('fn', (t.I32,), t.I32), ('map', t.STR, t.I32), ('tv', 'T'))]
           + [t.arr(x, *d) for x in (t.I32, t.ds(('rec', (('a', t.I32),)))) for d in ((t.V,), (t.F3,), (('F', 2),), (t.V, t.F3), (('F', 1),))])
ANSWERS = list(dict.fromkeys(ANSWERS))


class Any(object):
    """the answer depends on the instance"""
    def __init__(self, answer):
        self.answer = answer


def answering():
    """leaves of the model of values: an instance of a class per answer, and one of a class with all answers"""
    if '#0' in V.LEAVES:
        return
    discovery.discover.register(Any)(lambda x: x.answer)
    for i, term in enumerate(ANSWERS):
        o = t.build(term)
        forms = [o] if term[1] else [T.DataShape(o.measure), o.measure]
        cls = type('K%d' % i, (object,), {'answer': forms[0]})
        discovery.discover.register(cls)(lambda x: x.answer)
        V.LEAVES['#%d' % i] = (cls(), term)
        V.LEAVES['#%db' % i] = (Any(forms[-1]), term)


def disc(v):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return t.observe(D.discover(v))



def run_answer(c):
    got, want = disc(V.val(c)), V.ref(c)
    require(t.strict_eq(got, want), 'discover(%s), of answers %s, is %s instead of %s', show(c), kinds(c), ascii(t.text(got)), ascii(t.text(want)))
    STAT.add('transitions')
    return want[2][0]


def show(c):
    if c[0] == 'v':
        return c[1]
    return c[0] + str([show(x) if c[0] in 'ltsf' else (x[0], show(x[1])) for x in c[1]])


def kinds(c):
    if c[0] == 'v':
        return {c[1]: ascii(t.text(V.LEAVES[c[1]][1]))} if c[1].startswith('#') else {}
    out = {}
    for x in c[1]:
        out.update(kinds(x if c[0] in 'ltsf' else x[1]))
    return out


def answer_cases(tier):
    q = tier == 'quick'
    A = [('v', n) for n in V.LEAVES if n.startswith('#')]
    few = [x for x in A if x[1].endswith('b')][::2 if q else 1]
    B = [('v', n) for n in ('None', '1', '2.5', 'text', "'12'", 'date', 'i32')]
    out = [f(x) for x in A for f in SHAPES]
    for x, y in itertools.product(A + B, repeat=2):
        out += [('l', (x, y)), ('t', (x, y)), ('l', (('t', (x,)), ('l', (y,)))), ('l', (('d', (('k', x),)), ('d', (('k', y),)))), ('d', (('k', x), ('j', y))),
                ('l', (('t', (x, B[1])), ('t', (y, B[1])))), ('l', (('d', (('k', x),)), ('d', (('k', y), ('z', x))))), ('l', (('l', (x, y)), ('l', (y, x))))]
    for xs in itertools.product(few + B[:3], repeat=3):
        out += [('l', xs), ('l', tuple(('t', (x,)) for x in xs)), ('l', tuple(('d', (('k', x),)) for x in xs))]
    return list(dict.fromkeys(out))


SHAPES = [lambda x: x, lambda x: ('l', (x,)), lambda x: ('t', (x,)), lambda x: ('s', (x,)), lambda x: ('f', (x,)), lambda x: ('d', (('a', x),)), lambda x: ('o', (('a', x),)),
          lambda x: ('m', (('a', x),)), lambda x: ('l', (('l', (x, x)), ('l', (x,)))), lambda x: ('l', (('l', (x,)),)), lambda x: ('d', (('a', ('l', (x, x, x))),)),
          lambda x: ('l', (('m', (('a', x),)), ('m', (('a', x),)))), lambda x: ('l', (('d', (('a', x),)), ('o', (('a', x),)))), lambda x: ('t', (x, ('d', (('a', x),))))]


# ---------------------------------------------------------------- histories
def world():
    class A(object):
        pass

    class B(A):
        pass

    class C(B):
        pass

    class I(int):
        pass

    class S(str):
        pass

    class Da(dtm.date):
        pass

    class DT(dtm.datetime):
        pass

    class Like(object):
        shape = (3, 2)
        dtype = np.dtype('int16')

    class N(np.ndarray):
        pass

    class F(frozenset):
        pass
    n = np.zeros((2,), dtype='i2').view(N)
    vals = {'A': A(), 'B': B(), 'C': C(), 'I': I(5), 'S': S('12'), 'Da': Da(2000, 1, 2), 'DT': DT(2000, 1, 2, 3), 'Like': Like(), 'N': n, 'F': F([1, 2])}
    return {k: type(v) for k, v in vals.items()}, vals


I64, I16 = ('ct', 'int64'), ('ct', 'int16')
DEFAULT = {'I': t.ds(I64), 'S': t.ds(I64), 'Da': t.ds(('date',)), 'DT': t.ds(('dt', None)), 'Like': t.arr(t.ds(I16), t.F3, ('F', 2)), 'N': t.arr(t.ds(I16), ('F', 2)),
           'F': t.arr(t.ds(I64), ('F', 2))}
PARENTS = {'C': ('C', 'B', 'A'), 'B': ('B', 'A')}
NAMES = ['A', 'B', 'C', 'I', 'S', 'Da', 'DT', 'Like', 'N', 'F']
RESULT = [t.ds(('ct', 'float32')), t.arr(t.ds(('rec', (('p', t.I32), ('q', t.STR)))), t.V)]


def regs():
    out = []
    for n in NAMES:
        for r in (0, 1):
            out.append((n, r, 'register'))
        out.append((n, 0, 'dispatch'))
    out += [('A+I', 1, 'register'), ('A+I', 1, 'dispatch'), ('C+Like', 0, 'register'), ('B+A', 1, 'dispatch'), ('S+Da', 0, 'register'), ('I+N', 0, 'dispatch')]
    return out


def answer(model, n):
    for c in PARENTS.get(n, (n,)):
        if c in model:
            return RESULT[model[c]]
    return DEFAULT.get(n)


PLAIN = [(1, t.ds(I64)), ('12', t.ds(I64)), ([1, 2], t.arr(t.ds(I64), ('F', 2))), ([[1], [2, 3]], t.arr(t.ds(I64), ('F', 2), ('V',))), ({'a': 1.5}, t.rec(('a', t.F64))),
         (dtm.date(2000, 1, 2), t.ds(('date',))), (dtm.datetime(2000, 1, 2, 3), t.ds(('dt', None))), (None, t.ds(('null',))), (True, t.ds(('ct', 'bool'))),
         (np.zeros((2, 3), dtype='i2'), t.arr(t.ds(I16), ('F', 2), t.F3)), (frozenset([1]), t.arr(t.ds(I64), ('F', 1))), ((1, 'a'), t.tup(t.ds(I64), t.STR))]


def probe(model, vals, what):
    def fail(v):
        try:
            disc(v)
        except NotImplementedError:
            return True
        return False
    for n in NAMES:
        v, x = vals[n], answer(model, n)
        wraps = [v, [v], [v, v], (v,), {'k': v}, [[v], [v]], [{'k': v}, {'k': v}], [v, None], {'a': {'b': [v]}}]
        if x is None:
            for w in wraps:
                require(fail(w), '%s: discovering %r is accepted', what, w)
            continue
        V.LEAVES['?'] = (v, x)
        q = ('v', '?')
        codes = [q, ('l', (q,)), ('l', (q, q)), ('t', (q,)), ('d', (('k', q),)), ('l', (('l', (q,)), ('l', (q,)))), ('l', (('d', (('k', q),)), ('d', (('k', q),)))),
                 ('l', (q, ('v', 'None'))), ('d', (('a', ('d', (('b', ('l', (q,))),))),))]
        for c in codes:
            got, want = disc(V.val(c)), V.ref(c)
            require(t.strict_eq(got, want), '%s: discovering %s of class %s gives %s instead of %s', what, show(c), n, ascii(t.text(got)), ascii(t.text(want)))
            STAT.add('transitions')
    for v, want in PLAIN:
        got = disc(v)
        require(t.strict_eq(got, want), '%s: discovering %r gives %s', what, v, ascii(t.text(got)))


def apply(reg, classes):
    names, r, route = reg
    cls = tuple(classes[n] for n in names.split('+'))
    res = t.build(RESULT[r])

    def f(x):
        return res
    if route == 'register':
        require(discovery.discover.register(cls if len(cls) > 1 else cls[0])(f) is f, 'register does not give back the function')
    else:
        f.__name__ = 'discover'
        require(dispatch(*([cls] if len(cls) > 1 else cls))(f) is D.discover, 'dispatch does not give the function of all')


def run_history(case):
    seq, between = case

    def go():
        from ..core import Violation
        classes, vals = world()
        model = {}
        try:
            for k, reg in enumerate(seq):
                if between:
                    probe(model, vals, 'after %s' % (seq[:k],))
                apply(reg, classes)
                for n in reg[0].split('+'):
                    model[n] = reg[1]
            probe(model, vals, 'after %s%s' % (seq, ' with discoveries in between' if between else ''))
        except Violation as e:
            return str(e)
        except Exception:
            import traceback
            return 'unexpected ' + traceback.format_exc()
    r = in_child(go)
    require(not r, '%s', r)
    STAT.add('states', len(seq))
    STAT.add('transitions', (90 + len(PLAIN)) * (len(seq) + 1 if between else 1))
    return 'model agrees'


# --------------------------------------------------------------- validation
def run_validate(case):
    """functions registered for the validation of classes"""
    order, probe_first = case

    def go():
        from ..core import Violation

        class M(object):
            def __init__(self, ok):
                self.ok = ok

        class M2(M):
            pass

        class P(object):
            pass
        known = set()
        todo = {'date': T.Date, 'string': T.String, 'int': T.CType, 'record': T.Record}
        text = {'date': 'date', 'string': 'string', 'int': 'int32', 'record': '{x: int32}'}
        plain = {'date': dtm.date(2000, 1, 2), 'string': 'x', 'int': np.int32(3), 'record': {'x': np.int32(1)}}

        def check():
            for s in text:
                for v in (M(True), M(False), M2(True), M2(False), P(), plain[s], 1.5):
                    mine = isinstance(v, M)
                    ok = (s in known and v.ok) if mine else v is plain[s]
                    other = plain[s]
                    for sch, val, want in ((text[s], v, ok), (D.dshape(text[s]), v, ok), (D.dshape(text[s]).measure, v, ok),
                                           ('2 * ' + text[s], [other, v], ok), ('2 * ' + text[s], (v, other), ok), ('var * ' + text[s], [v] * 3, ok), ('3 * ' + text[s], [v] * 2, False),
                                           ('{a: %s, b: date}' % text[s], {'a': v, 'b': plain['date']}, ok), ('{b: date, a: %s}' % text[s], (plain['date'], v), ok),
                                           ('{b: date, a: var * %s}' % text[s], (plain['date'], [v, other]), ok), ('{b: string, a: %s}' % text[s], (plain['date'], v), False),
                                           ('2 * 1 * ' + text[s], [[v], [other]], ok), (('json', text[s]), v, ok), ((text[s], 'json'), v, ok), (('json', 'null'), v, False),
                                           ('json', v, False)):
                        got = D.validate(sch, val)
                        require(bool(got) == want, 'with functions for %s, validate(%s, %r) is %r', sorted(known), sch, [val, mine and v.ok], got)
                        STAT.add('transitions')
        try:
            if probe_first:
                check()
            for s in order:
                D.validate.register(todo[s], M)(lambda schema, value: value.ok)
                known.add(s)
                if probe_first:
                    check()
            check()
        except Violation as e:
            return str(e)
        except Exception:
            import traceback
            return 'unexpected ' + traceback.format_exc()
    r = in_child(go)
    require(not r, '%s', r)
    return 'ok'


def spaces(tier):
    q = tier == 'quick'
    answering()
    A = answer_cases(tier)
    R = regs()
    few = [x for x in R if x[0] in ('A', 'B', 'C', 'I') and (x[2] == 'register')] + [x for x in R if '+' in x[0]][:4]
    H = [tuple(s) for k in (0, 1, 2) for s in itertools.product(R, repeat=k)] + [tuple(s) for s in itertools.product(few if q else R, repeat=3)]
    H = [(s, b) for s in dict.fromkeys(H) for b in (False, True) if s or b]
    P = [(s, b) for k in range(5) for s in itertools.permutations(('date', 'string', 'int', 'record'), k) for b in (False, True)]
    return [
        Space('answers', A, run_answer, len(A), None, show),
        Space('histories', H, run_history, len(H), None, repr),
        Space('validation', P, run_validate, len(P), None, repr),
    ]
