"""C26  a failing equality assertion points at a place where the types differ"""
import ast
from .. import scale
from .. import terms as t
from ..variants import family
from ..core import Space, require, STAT
from . import c19
from .c19 import SOME, same, changed, ALL
from datashape.util.testing import assert_dshape_equal

D, T = t.D, t.T
PROPERTY = 'C26'
TECHNIQUE = ('exhaustive enumeration of ordered pairs of types closed under single changes at every position, times combinations of the flags; '
             'the place the message names is followed in both types and compared with the places where a model of equality finds them different')
NOTE = ('Exhaustive within the bounds. Where the types differ in several places, any of them will do; only the place is specified, not the wording.')
BOUNDS = {'quick': 'all pairs of the single changes of 150 types of depth 3 times 8 flag combinations; all pairs of 1300 variants without flags',
          'thorough': 'the single changes of 400 types of depth 3 times 64 combinations; all pairs of 1300 variants with 8 combinations'}
SLOT = {'ct': ['name'], 'str': ['fixlen', 'encoding'], 'time': ['tz'], 'dt': ['tz'], 'td': ['unit'], 'dec': ['precision', 'scale'], 'tv': ['symbol'], 'map': ['key', 'value'],
        'cat': ['categories', 'type', 'ordered']}
FLAG = {('time', 'tz'): 'check_tz', ('dt', 'tz'): 'check_tz', ('td', 'unit'): 'check_timedelta_unit', ('str', 'fixlen'): 'check_str_fixlen', ('str', 'encoding'): 'check_str_encoding'}


def places(a, b, f, at=()):
    """the smallest parts in which two datashape terms differ, as tuples of steps"""
    out = set()
    if f['check_dim']:
        if len(a[1]) != len(b[1]):
            out.add(at)
        else:
            out |= {at + ('shape', i) for i, (p, q) in enumerate(zip(a[1], b[1])) if p != q}
    x, y = a[2], b[2]
    k = x[0]
    if k != y[0]:
        out.add(at)
    elif k in SLOT:
        for s, p, q in zip(SLOT[k], x[1:], y[1:]):
            if p != q and (f[FLAG[k, s]] if (k, s) in FLAG else True):
                out.add(at + (s,))
    elif k == 'units':
        if x[1] != y[1]:
            out.add(at + ('unit',))
        out |= places(x[2], y[2], f, at + ('tp',))
    elif k == 'opt':
        out |= places(x[1], y[1], f, at + ('ty',))
    elif k == 'rec':
        if len(x[1]) != len(y[1]):
            out.add(at)
        else:
            p, q = x[1], y[1]
            if not f['check_record_order']:
                p, q = sorted(p, key=lambda i: i[0]), sorted(q, key=lambda i: i[0])
            for (n, u), (m, v) in zip(p, q):
                if n != m:
                    out.add(at)
                else:
                    out |= places(u, v, f, at + (('field', n),))
    elif k == 'tup':
        if len(x[1]) != len(y[1]):
            out.add(at)
        else:
            for i, (u, v) in enumerate(zip(x[1], y[1])):
                out |= places(u, v, f, at + ('dshapes', i))
    elif k == 'fn':
        if len(x[1]) != len(y[1]):
            out.add(at)
        else:
            for i, (u, v) in enumerate(zip(x[1], y[1])):
                out |= places(u, v, f, at + ('argtypes', i))
            out |= places(x[2], y[2], f, at + ('restype',))
    elif x != y:
        out.add(at)
    return out


def read(text):
    """the path in a message -> steps; the measure of something is the same place"""
    lines = [x for x in text.split('\n') if x.startswith('path: ')]
    if not lines:
        return ()
    n = ast.parse(lines[-1][6:], mode='eval').body
    out = []
    while not isinstance(n, ast.Name):
        if isinstance(n, ast.Attribute):
            out.append(n.attr)
            n = n.value
        else:
            i = ast.literal_eval(n.slice)
            out.append(i if isinstance(i, int) else ('field', i))
            n = n.value
    require(n.id == '_', 'the path is %s', lines[-1])
    return tuple(out[::-1])


def follow(o, steps):
    for s in steps:
        o = o[s] if isinstance(s, int) else o[s[1]] if isinstance(s, tuple) else getattr(o, s)
    return o


def check(ta, tb, a, b, f):
    kw = {k: v for k, v in f.items() if v is False}
    try:
        assert_dshape_equal(a, b, **kw)
    except AssertionError as e:
        msg = str(e)
    else:
        return
    what = 'assert_dshape_equal(%s, %s) with %s off: %s' % (ascii(t.text(ta)), ascii(t.text(tb)), sorted(kw) or 'no flag', ascii(msg))
    STAT.add('transitions')
    steps = read(msg)
    want = places(ta, tb, f)
    if not want:
        return                      # whether it fails is the subject of C19
    got = tuple(s for s in steps if s != 'measure')
    require(got in want, '%s: the types differ at %s only', what, sorted(map(str, want))[:4])
    try:
        x, y = follow(a, steps), follow(b, steps)
    except Exception as e:
        require(False, '%s: the path cannot be followed: %s', what, e)
    require(x != y, '%s: %r is there in both', what, x)


def run_group(case):
    base, k, combos = case
    terms = [base] + changed(base)
    objs = [t.build(x) for x in terms]
    for ta, a in zip(terms[k:k + 4], objs[k:k + 4]):
        for tb, b in zip(terms, objs):
            for f in (SOME if combos == 8 else ALL):
                check(ta, tb, a, b, f)
        STAT.add('traces', len(terms))
    return 'ok'


FAM, OBJ, COMBOS = [], [], []


def run_row(i):
    for j in range(len(FAM)):
        for f in COMBOS:
            check(FAM[i], FAM[j], OBJ[i], OBJ[j], f)
        if not FAM[i][1] and not FAM[j][1]:
            a, b = OBJ[i].measure, OBJ[j].measure
            for x, y in ((a, b), (OBJ[i], b), (a, OBJ[j])):
                check(FAM[i], FAM[j], x, y, SOME[0])
    STAT.add('traces', len(FAM))
    return 'row'


def run_grown(case):
    name, n, i = case
    ta, tb = scale.term((name, n, None)), scale.term(case)
    a, b = t.build(ta), t.build(tb)
    for f in SOME:
        check(ta, tb, a, b, f)
        check(tb, ta, b, a, f)
    return name


NAMES = ['a', 'a b', "it's", '"', '\\', '\n', ']', "['x']", '.y', '\xe9', '', 'measure', 'shape', 'path: _', '%s', '{0}', '\u2028']


def run_name(case):
    """fields with names of all kinds"""
    i, j = case
    n, m = NAMES[i], NAMES[j]
    for u, v in ((t.I32, t.F64), (t.arr(t.I32, t.F3), t.arr(t.I32, t.V)), (t.rec((m, t.I32)), t.rec((m, t.STR))), (t.opt(t.rec(('p', t.I32), (m + '2', t.I32))), t.opt(t.rec(('p', t.I32), (m + '2', t.STR)))),
                 (t.rec((m, t.I32)), t.rec((m + '3', t.I32))), (t.I32, t.rec((m, t.I32)))):
        ta, tb = t.rec((n, u), (n + '1', t.I32)), t.rec((n, v), (n + '1', t.I32))
        for x, y in ((ta, tb), (tb, ta), (t.arr(ta, t.V), t.arr(tb, t.V)), (t.tup(t.I32, ta), t.tup(t.I32, tb))):
            for f in SOME:
                check(x, y, t.build(x), t.build(y), f)
    return 'ok'


def spaces(tier):
    q = tier == 'quick'
    S, TD, TZ = t.ds(('str', 7, 'A')), t.ds(('td', 'ms')), t.ds(('dt', 'UTC'))
    leaves = [S, TD, TZ, t.ds(('time', None)), t.I32, t.arr(S, t.F3), t.arr(TZ, t.V, t.F3), t.rec(('b', S), ('a', TZ)), t.ds(('dec', 7, 4)), t.ds(('units', 'kg', t.F64)),
              t.ds(('cat', ('a', 'b'), t.STR[2], False)), t.ds(('null',)), t.ds(('tv', 'T'))]
    wraps = [lambda x: x, t.opt, lambda x: t.rec(('p', x), ('a', t.I32)), lambda x: t.tup(x, TD), lambda x: t.fn([x], t.I32), lambda x: t.fn([TD], x),
             lambda x: t.arr(x, t.F3), lambda x: t.ds(('units', 'm', x)), lambda x: t.rec(('z', t.rec(('y', x), ('x', S)))), lambda x: t.mp(t.I32, x)]
    bases = [w(x) for w in wraps for x in leaves] + [v(w(x)) for w in wraps[1:9] for v in wraps[1:9] for x in (S, TZ)][::3 if q else 1]
    if not q:
        bases += [v(w(x)) for w in wraps for v in wraps for x in leaves[3:8]]
    bases = list(dict.fromkeys(bases))
    del FAM[:], OBJ[:], COMBOS[:]
    FAM.extend(family())
    OBJ.extend(map(t.build, FAM))
    COMBOS.extend(SOME[:1] if q else SOME)
    grown = scale.cases(tier)
    rows = [(x, k, 8 if q else 64) for x in bases for k in range(0, len(changed(x)) + 1, 4)]
    names = [(i, j) for i in range(len(NAMES)) for j in range(len(NAMES))]
    return [
        Space('single changes', rows, run_group, len(rows), None, lambda c: ascii(t.text(c[0]))),
        Space('names', names, run_name, len(names), None, repr),
        Space('growth', grown, run_grown, len(grown), None, scale.show),
        Space('all variants', list(range(len(FAM))), run_row, len(FAM), None, lambda i: ascii(t.text(FAM[i]))),
    ]
