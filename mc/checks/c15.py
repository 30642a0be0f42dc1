"""C15  promotion of two types"""
import itertools
import numpy as np
from .. import terms as t
from ..core import Space, require, STAT
from .c09 import msr, UNSPEC

D, T = t.D, t.T
PROPERTY = 'C15'
TECHNIQUE = ('exhaustive enumeration of ordered pairs of scalar types times option wrapping, datashape wrapping and the option '
             'flag; each result is compared with NumPy promotion of a model of the types and with the other order')
NOTE = ('Exhaustive over the stated types. Equal optional types are returned as they are, whatever the flag. NumPy promotion is '
        'the documented reference and trusted.')
BOUNDS = {'quick': '84 scalar types, pairs times 32 wrappings; triples of 18 types; optionify over 14 types cubed',
          'thorough': 'the same with triples of 40 types'}
REF = (TypeError, NotImplementedError)
STRING = ('str', None, 'U8')


def from_np(dt):
    if dt.kind in 'SU':
        return ('str', dt.itemsize // (4 if dt.kind == 'U' else 1), 'U32' if dt.kind == 'U' else 'A')
    if dt.kind == 'M':
        return ('date',) if np.datetime_data(dt)[0] in ('Y', 'M', 'W', 'D') else ('dt', None)
    if dt.kind == 'm':
        u = np.datetime_data(dt)[0]
        return ('td', u) if u in t.UNITS else None
    n = {'complex64': 'complex[float32]', 'complex128': 'complex[float64]'}.get(dt.name, dt.name)
    return ('ct', n) if n in t.CTYPES else None


def model(a, b):
    """measure terms without options -> measure term, None: refused, UNSPEC"""
    if a == b == STRING:
        return STRING
    x, y = msr(a), msr(b)
    if isinstance(x, str) or isinstance(y, str):
        return None
    if x is UNSPEC or y is UNSPEC:
        return UNSPEC
    try:
        r = np.promote_types(x, y)
    except TypeError:
        return None
    return from_np(r)


def strip(m):
    return (m[1][2], True) if m[0] == 'opt' else (m, False)


def obj(m, wrapped):
    o = t.build_measure(m)
    return T.DataShape(o) if wrapped else o


def run_pair(pair):
    a0, b0 = pair
    out = None
    for oa, ob, wa, wb, flag in itertools.product((False, True), repeat=5):
        if flag is False and wa != wb:
            continue
        a = ('opt', t.ds(a0)) if oa else a0
        b = ('opt', t.ds(b0)) if ob else b0
        x, y = obj(a, wa), obj(b, wb)
        shown = 'promote(%s, %s%s)' % (t.text_measure(a), t.text_measure(b), '' if flag else ', promote_option=False')
        res = []
        for l, r in ((x, y), (y, x)):
            try:
                res.append(t.observe(D.promote(l, r) if flag else D.promote(l, r, promote_option=False)))
            except REF as e:
                res.append(None)
            STAT.add('transitions')
        require(res[0] == res[1], '%s is %s in one order and %s in the other', shown, res[0], res[1])
        require(t.observe(x) == t.ds(a) and t.observe(y) == t.ds(b), '%s changed an argument', shown)
        if a == b:
            require(res[0] == t.ds(a), '%s is %s', shown, res[0])
            out = out or 'equal'
            continue
        m = model(a0, b0)
        if a0 == b0 and a0 != STRING and (m is None or m is UNSPEC or m != a0):
            # an optional and a plain type: NumPy may not be able to represent it, or say it differently
            m = UNSPEC if m is None else m
        if m is UNSPEC:
            out = out or 'unspecified'
            continue
        want = None if m is None else t.ds(('opt', t.ds(m))) if flag and (oa or ob) else t.ds(m)
        require(t.strict_eq(res[0], want), '%s is %s instead of %s', shown, res[0] and t.text(res[0]), want and t.text(want))
        if want is not None:
            out = out or 'promoted'
            # what was promoted absorbs both operands, for numbers
            if a0[0] == b0[0] == 'ct' and m[1] != 'object':
                p = t.build(want)
                for o in (x, y):
                    require(t.observe(D.promote(p, o)) == (want if flag or not (oa or ob) else t.ds(('opt', t.ds(m))) if (oa if o is x else ob) else want),
                            '%s does not absorb its operands', shown)
        else:
            out = out or 'refused'
    return out


def run_triple(tr):
    """the option flag and wrapping of a chain of promotions"""
    ms = [strip(x) for x in tr]
    n = None
    try:
        want = model(ms[0][0], ms[1][0])
        want = want if want in (None, UNSPEC) else model(want, ms[2][0])
    except KeyError:
        want = UNSPEC
    try:
        got = t.observe(D.promote(D.promote(obj(tr[0], 0), obj(tr[1], 1)), obj(tr[2], 0)))
    except REF:
        got = None
    if want is UNSPEC or len(set(x for x, _ in ms)) < 3:
        return 'unspecified'
    exp = None if want is None else t.ds(('opt', t.ds(want))) if any(o for _, o in ms) else t.ds(want)
    require(got == exp, 'promoting %s in turn gives %s instead of %s', [t.text_measure(x) for x in tr], got, exp)
    return 'ok' if exp else 'refused'


def run_optionify(case):
    a, b, c, wa, wb, wc = case
    x, y, z = obj(a, wa), obj(b, wb), obj(c, wc)
    r = D.optionify(x, y, z)
    opt = a[0] == 'opt' or b[0] == 'opt'
    want = t.ds(c) if not opt or c[0] == 'opt' else t.ds(('opt', t.ds(c)))
    require(t.strict_eq(t.observe(r), want), 'optionify(%s, %s, %s) is %s instead of %s', x, y, z, r, t.text(want))
    require(t.observe(x) == t.ds(a) and t.observe(y) == t.ds(b) and t.observe(z) == t.ds(c), 'optionify changed its arguments')
    return 'option' if want[2][0] == 'opt' else 'plain'


def scalars():
    out = [('ct', n) for n in t.CTYPES]
    out += [('str', n, e) for n in (None, 1, 5, 12, 30) for e in ('A', 'U8', 'U16', 'U32')]
    out += [('date',), ('time', None), ('dt', None), ('dt', 'UTC')] + [('td', u) for u in t.UNITS]
    out += [('dec', p, s) for p, s in ((1, 0), (2, 0), (3, 0), (4, 0), (9, 0), (10, 0), (18, 0), (19, 0), (7, 4), (38, 2))]
    out += [('json',), ('null',), ('bytes',), ('tv', 'T'), ('units', 'm', t.F64), ('cat', ('a', 'b'), STRING, False), ('cat', (1, 2), ('ct', 'int64'), True)]
    return out


def spaces(tier):
    q = tier == 'quick'
    s = scalars()
    pairs = list(itertools.combinations_with_replacement(s, 2))
    few = [('ct', n) for n in t.CTYPES[:15]] + [STRING, ('str', 5, 'U32'), ('td', 's')] + ([] if q else s[14:40])
    few = list(dict.fromkeys(few + [('opt', t.ds(x)) for x in few]))
    triples = list(itertools.product(few, repeat=3))
    om = [('ct', 'int32'), ('ct', 'float64'), STRING, ('date',), ('rec', (('a', t.I32),)), ('tup', (t.I32,)), ('null',)]
    om += [('opt', t.ds(x)) for x in om]
    opts = [x + w for x in itertools.product(om, repeat=3) for w in itertools.product((False, True), repeat=3)]
    return [
        Space('pairs', pairs, run_pair, len(s), None, lambda p: '%s, %s' % tuple(map(t.text_measure, p))),
        Space('chains', triples, run_triple, len(few), 0, lambda p: ', '.join(map(t.text_measure, p))),
        Space('optionify', opts, run_optionify, len(om), 0, lambda c: ', '.join(map(t.text_measure, c[:3]))),
    ]
