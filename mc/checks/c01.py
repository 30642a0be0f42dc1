"""C01  printing a type and reading the text back gives the same type"""
import keyword
from .. import scale
from .. import terms as t
from ..core import Space, require, STAT

D = t.D
PROPERTY = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state enumeration: BFS over the type-building operations of a term model; every state is '
             'built, printed at every width, read back and compared with the model')
NOTE = ('Exhaustive within the stated nesting depth, alphabets and widths; states beyond them are not covered. '
        'The model is bound to the code by building every model state through the public constructors and '
        'observing every attribute of what is read back.')
BOUNDS = {
    'quick': 'all types of nesting depth <= 2 over 45 atoms x 17 contexts; every BMP character as a '
             'field name; every string of length <= 3 over 16 awkward characters in 5 positions; '
             'all print widths 0..130 for depth <= 1',
    'thorough': 'nesting depth 3; every Unicode code point; strings of length <= 4; all widths',
}
ASSUMPTIONS = ['types are built through the public constructors and compared both with == and '
               'attribute by attribute with an independent term model']


def same(text, o, term, what):
    try:
        p = D.dshape(text)
    except (SyntaxError, TypeError, ValueError, NotImplementedError) as e:
        require(False, '%s printed %s which does not parse back: %s', what, ascii(text),
                type(e).__name__ + ': ' + str(e).strip().split('\n')[-1])
    got = t.observe(p)
    require(t.strict_eq(got, term), '%s printed %s which reads back as %s', what, ascii(text), ascii(got))
    require(p == o and o == p and not (p != o), '%s printed %s: parsed type is not equal', what, ascii(text))


ENV = {'dshape': D.dshape}


def roundtrip(term, widths):
    o = t.build(term)
    m = o.measure
    texts = {str(o): 'str'}
    for w in widths:
        texts.setdefault(D.coretypes.pprint(o, width=w), 'pprint width %d' % w)
    if not term[1]:
        texts.setdefault(str(m), 'str of the bare measure')
        for w in widths[:3]:
            texts.setdefault(D.coretypes.pprint(m, width=w), 'pprint of the bare measure')
    for s, what in texts.items():
        same(s, o, term, what)
    r = repr(o)
    try:
        p = eval(r, dict(ENV))
    except Exception as e:
        require(False, 'repr %s does not evaluate: %s: %s', ascii(r), type(e).__name__, e)
    require(t.strict_eq(t.observe(p), term) and p == o, 'repr %s evaluates to %s', ascii(r), ascii(t.observe(p)))
    if term[2][0] in ('rec', 'tup'):
        r = repr(m)
        p = eval(r, dict(ENV))
        require(t.strict_eq(t.observe(p), t.ds(term[2])), 'repr %s evaluates to %s', ascii(r), ascii(t.observe(p)))
    STAT.add('texts', len(texts) + 1)
    STAT.add('multiline', any('\n' in s for s in texts))
    return 'multiline' if any('\n' in s for s in texts) else 'one line'


WIDE = list(range(0, 131))
FEW = [1, 20, 45, 80]


def place(kind, s):
    if kind == 'name':
        return t.ds(('rec', ((s, t.I32),)))
    if kind == 'name2':
        return t.ds(('rec', (('q', t.STR), (s, t.ds(('tup', (t.I32,)), t.F3)))), t.V)
    if kind == 'time':
        return t.ds(('time', s))
    if kind == 'dt':
        return t.ds(('dt', s))
    if kind == 'units':
        return t.ds(('units', s, t.ct('int64')))
    if kind == 'units1':
        return t.ds(('units', s, t.F64))
    if kind == 'cat':
        return t.ds(('cat', (s, 'zz' + s), t.STR[2], False))
    raise KeyError(kind)


def run_place(case):
    return case[0] + ':' + roundtrip(place(*case), [80])


AWKWARD = ["'", '"', '\\', '\n', 'n', 'u', '0', ' ', '#', '}', 'a', '\0', '\x7f', '\u00e9',
           '\ud800', '\U0001f600']


def strings(n):
    out = ['']
    layer = ['']
    for _ in range(n):
        layer = [s + c for s in layer for c in AWKWARD]
        out += layer
    return out


def chars(limit):
    def f(shard, n):
        for i in range(shard, limit, n):
            c = chr(i)
            yield ('name', c)
            if i < 0x3000 or 0xd7f0 <= i < 0xe010 or i >= 0xfff0 and i < 0x10010 or limit > 0x10000 and i % 16 == 15:
                yield ('dt', c)
                yield ('units', c + 'x')
                yield ('cat', c)
                yield ('name2', 'a' + c)
    return f


def words():
    out = list(keyword.kwlist) + ['true', 'false', 'var', 'int32', 'string', 'ellipsis', 'fixed',
                                  'option', 'struct', 'Trueish', 'False_', 'TRUE', 'nan', '_', '__', '1a',
                                  'a-b', 'a.b', 'a b', '-1', '...', '->', 'None', 'a\n', '\na', 'a\\nb']
    first = 'aZz_0T'
    for a in first:
        for b in 'aZ_09-. \n':
            out.append(a + b)
    return out


def numbers():
    out = [t.ds(('ct', 'int8'), ('F', n)) for n in
           list(range(0, 1300)) + [10 ** k + d for k in range(3, 30) for d in (-1, 0, 1)]]
    out += [t.ds(('str', n, e)) for n in list(range(0, 301)) + [10 ** k for k in range(3, 12)]
            for e in ('U8', 'A', 'U16', 'U32')]
    out += [t.ds(('dec', p, s)) for p in range(0, 41) for s in range(0, 41)]
    out += [t.ds(('td', u)) for u in t.UNITS]
    return out


def cats():
    out = []
    S, I, B = t.STR[2], ('ct', 'int64'), ('ct', 'bool')
    for n in range(0, 11):
        for o in (False, True):
            out.append(t.ds(('cat', tuple('abcdefghijk'[:n]), S, o)))
            out.append(t.ds(('cat', tuple(range(-3, n - 3)), I, o)))
            out.append(t.ds(('cat', tuple("it's \"%d\"" % i for i in range(n)), S, o)))
            for ty in (('str', 5, 'A'), ('opt', t.STR), ('date',), ('dt', 'UTC'), ('rec', (('a', t.I32),))):
                out.append(t.ds(('cat', tuple('abcdefghijk'[:n]), ty, o)))
    out += [t.ds(('cat', c, B, o)) for c in ((True,), (False,), (True, False), (False, True))
            for o in (False, True)]
    return out


def layouts(tier):
    """records and tuples whose printed form crosses the line width at every point"""
    out = []
    top = 14 if tier == 'quick' else 26
    for n in range(0, top):
        names = ['field_%d' % i for i in range(n)]
        flat = t.rec(*[(x, t.STR) for x in names])
        out.append(t.arr(flat, t.V))
        out.append(t.arr(t.tup(*[t.F64] * n), t.F3, t.V))
        out.append(t.rec(*[('field %d' % i, t.tup(*[t.I32] * (i % 3))) for i in range(n)]))
        out.append(t.tup(*[t.rec(('x' * i, t.STR), ('y', t.arr(t.opt(t.F64), t.V))) for i in range(1, n)]))
        out.append(t.rec(('a', t.fn([flat], t.I32))))
        out.append(t.opt(t.arr(t.rec(*[(x, t.opt(t.STR)) for x in names]), t.V)))
        out.append(t.mp(t.STR, flat))
        out.append(t.ds(('units', 'x' * n, flat)))
        out.append(t.arr(t.rec(*[('"%d\'' % i, t.STR) for i in range(n)]), t.V))
    for n in range(60, 100):
        out.append(t.rec(('x' * n, t.I32)))
        out.append(t.rec(('a', t.rec(('x' * n, t.I32)))))
    return list(dict.fromkeys(out))


def spaces(tier):
    quick = tier == 'quick'
    nest, edges = t.bfs(t.atoms(), t.contexts(), 2 if quick else 3)
    d1, e1 = t.bfs(t.atoms(), t.contexts(), 1)
    lay = layouts(tier)
    st = strings(3 if quick else 4)
    kinds = ['name', 'name2', 'dt', 'units', 'cat']
    texts = [(k, s) for k in kinds for s in st]
    wd = [(k, s) for k in kinds + ['time', 'units1'] for s in words()]
    show = lambda term: ascii(t.text(term))
    return [
        Space('nesting', nest, lambda x: roundtrip(x, FEW), len(nest), edges, show,
              'BFS over type-building contexts; distinct terms'),
        Space('widths', d1 + lay, lambda x: roundtrip(x, WIDE), len(d1) + len(lay), e1, show,
              'every print width 0..130'),
        Space('numbers', numbers(), lambda x: roundtrip(x, [80]), None, 0, show),
        Space('growth', [c for c in scale.cases(tier) if 'categories' not in c[0] or c[1] <= 10],
              lambda c: roundtrip(scale.term(c), [20, 80]), None, 0, scale.show, 'one thing at a time gets big; every single change'),
        Space('categories', cats(), lambda x: roundtrip(x, FEW), None, 0, show),
        Space('words', wd, run_place, len(wd), 0, ascii),
        Space('strings', texts, run_place, len(texts), len(texts) - len(kinds), ascii,
              'all strings over the awkward alphabet, in each position'),
        Space('characters', chars(0x10000 if quick else 0x110000), run_place, None, 0, ascii,
              'every code point as (part of) a name'),
    ]
