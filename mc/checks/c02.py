"""C02  the reader accepts exactly the documented grammar, with the prescribed value"""
import itertools
from .. import terms as t
from .. import grammar as g
from .. import constr
from .. import scale
from ..core import Space, require, STAT

D, T = t.D, t.T
from datashape import parser, type_symbol_table as tst

PROPERTY = 'C02'
TECHNIQUE = ('explicit-state enumeration of token sequences: every sequence up to a length, every derivation of the '
             'grammar model and every one-token mutant is replayed on the real parser and compared with the model')
NOTE = ('Exhaustive for the stated lengths and alphabets. The grammar model is a production table from which a '
        'generator and a chart recogniser are derived; they are cross-checked against each other. Type constructors '
        'are free (recording) in most spaces, so that argument passing itself is observed.')
ASSUMPTIONS = ['repeated keyword arguments have no specified meaning and are skipped']
BOUNDS = {'quick': 'length 5 over 25 tokens, 6 over 11; derivations up to 9 tokens; mutants of derivations up to 7',
          'thorough': 'length 5 over 25 tokens, 6 over 18, 7 over 11; derivations up to 10 tokens; mutants up to 8'}
REFUSED = (SyntaxError, TypeError, ValueError, NotImplementedError)


class FreeDim(T.Mono):
    cls = T.DIMENSION
    __slots__ = 'what',

    def __init__(self, what):
        self.what = what


class FreeType(T.Mono):
    cls = T.MEASURE
    __slots__ = 'what',

    def __init__(self, what):
        self.what = what


def obs(x):
    if isinstance(x, T.DataShape):
        return ('D',) + tuple(map(obs, x.parameters))
    if isinstance(x, (FreeDim, FreeType)):
        return x.what
    if isinstance(x, (list, tuple)):
        return ('list', tuple(map(obs, x)))
    if isinstance(x, bool):
        return ('bool', x)
    if isinstance(x, int):
        return ('int', x)
    if isinstance(x, str):
        return ('str', x)
    return ('?', repr(x))


def seq(x):
    return tuple(map(obs, x))


def free_table():
    s = tst.TypeSymbolTable(bare=True)

    def constr(name):
        return lambda *a, **k: FreeType(('constr', name, seq(a), tuple((n, obs(v)) for n, v in k.items())))
    for n in ('i', 'all'):
        s.dtype[n] = FreeType(('dtype', n))
    for n in ('c', 'all'):
        s.dtype_constr[n] = constr(n)
    for n in ('v', 'all'):
        s.dim[n] = FreeDim(('dim', n))
    for n in ('k', 'all'):
        s.dim_constr[n] = lambda *a, **k: FreeDim(('kconstr',))
    s.dim['ellipsis'] = FreeDim(('ell',))
    s.dim_constr['ellipsis'] = lambda n: FreeDim(('elltv', n))
    s.dim_constr['typevar'] = lambda n: FreeDim(('tvdim', n))
    s.dim_constr['fixed'] = lambda n: FreeDim(('fixed', n))
    s.dtype_constr['typevar'] = lambda n: FreeType(('tv', n))
    s.dtype_constr['option'] = lambda d: FreeType(('option', obs(d)))
    s.dtype_constr['struct'] = lambda names, types: FreeType(('struct', tuple(names), seq(types)))
    s.dtype_constr['tuple'] = lambda items: FreeType(('tuple', seq(items)))
    s.dtype_constr['funcproto'] = lambda args, ret: FreeType(('fn', seq(args), obs(ret)))
    return s


FREE = free_table()
_lang = {}


def compare(toks, expected, style=0):
    text = g.join(toks, style)
    if g.unsupported(expected):
        try:
            got = obs(parser.parse(text, FREE))
        except NotImplementedError:
            return 'not supported'
        require(False, '%s is accepted as %s with an unsupported dimension constructor', ascii(text), got)
    try:
        got = obs(parser.parse(text, FREE))
    except REFUSED as e:
        require(expected is None, '%s is refused (%s) but the grammar derives %s', ascii(text), type(e).__name__, expected)
        return 'refused'
    require(expected is not None, '%s is accepted as %s but the grammar does not derive it', ascii(text), got)
    require(t.strict_eq(got, expected), '%s reads as %s instead of %s', ascii(text), got, expected)
    return 'accepted'


def lang(alphabet, n):
    key = (tuple(alphabet), n)
    if key not in _lang:
        _lang[key] = g.generate(alphabet, n)
    return _lang[key]


def all_sequences(alphabet, n):
    """first token index + next are sharded; every sequence of length 1..n"""
    L = lang(alphabet, n)

    def cases(shard, nsh):
        k = 0
        for m in range(1, n + 1):
            for toks in itertools.product(alphabet, repeat=min(m, 2)):
                k += 1
                if k % nsh != shard:
                    continue
                if m <= 2:
                    yield toks
                else:
                    for rest in itertools.product(alphabet, repeat=m - 2):
                        yield toks + rest

    def run(toks):
        v = L[len(toks)].get(toks)
        if v is not None and g.duplicate_kw(v):
            return 'unspecified'
        return compare(toks, v)
    name = 'all sequences <=%d of %d' % (n, len(alphabet))
    tot = sum(len(alphabet) ** m for m in range(1, n + 1))
    return Space(name, cases, run, tot, tot, g.join, 'every token sequence; membership in the generated language')


def derivations(alphabets, n, styles):
    seen = {}
    for a in alphabets:
        for m, sents in lang(a, n).items():
            seen.update(sents)
    items = [x for x in seen.items() if not g.duplicate_kw(x[1])]

    def run(c):
        for s in styles:
            compare(c[0], c[1], s)
        return 'accepted, %d tokens' % len(c[0])
    return Space('derivations <=%d' % n, items, run, len(items), len(items) * len(styles),
                 lambda c: g.join(c[0]), 'every sentence of the grammar over the alphabets, in every layout')


def mutants(alphabets, n, against):
    base = {}
    for a in alphabets:
        for m, sents in lang(a, n).items():
            if m >= 4:
                base.update(sents)
    base = sorted(base)

    def run(b):
        seen = {b}
        for i in range(len(b) + 1):
            cand = []
            if i < len(b):
                cand.append(b[:i] + b[i + 1:])
                cand += [b[:i] + (x,) + b[i + 1:] for x in against]
                if i + 1 < len(b):
                    cand.append(b[:i] + (b[i + 1], b[i]) + b[i + 2:])
            cand += [b[:i] + (x,) + b[i:] for x in against]
            for m in cand:
                if m in seen or not m:
                    continue
                seen.add(m)
                v = g.recognise(m)
                if v is not None and g.duplicate_kw(v):
                    continue
                STAT.add(compare(m, v))
        STAT.add('states', len(seen))
        STAT.add('transitions', len(seen))
        STAT.add('traces', len(seen))
        return 'ok'
    return Space('mutants of derivations <=%d' % n, base, run, None, None, g.join,
                 'every deletion, replacement, insertion and swap of one token; chart recogniser as the oracle')


# ---- long argument lists
POOL = [(('i',), ('D', ('dtype', 'i'))), (('3',), ('int', 3)), (('"s"',), ('str', 's')), (('True',), ('bool', True)), (('[', ']'), ('list', ())),
        (('3', '*', 'i'), ('D', ('fixed', 3), ('dtype', 'i'))), (('[', '"s"', ',', '"s"', ']'), ('list', (('str', 's'),) * 2)),
        (('{', 'zz', ':', 'T', '}'), ('D', ('struct', ('zz',), (('D', ('tv', 'T')),)))), (('c', '[', 'i', ']'), ('D', ('constr', 'c', (('D', ('dtype', 'i')),), ()))),
        (('-1',), ('int', -1)), (('False',), ('bool', False)), (('?', 'i'), ('D', ('option', ('D', ('dtype', 'i')))))]
ITEMS = {'int': lambda k: ((str(k),), ('int', k)), 'str': lambda k: (('"x%d"' % k,), ('str', 'x%d' % k)), 'bool': lambda k: ((('True', 'False')[k % 2],), ('bool', k % 2 == 0)),
         'type': lambda k: POOL[(0, 5, 7, 8, 11)[k % 5]]}


def _commas(parts):
    out = []
    for k, x in enumerate(parts):
        out += ([','] if k else []) + list(x)
    return out


def run_args(case):
    """a constructor with p positional and k keyword arguments, and every way to spoil the list in one place"""
    p, k, r = case
    pos = [POOL[(r + j) % len(POOL)] for j in range(p)]
    kws = [('k%d' % j,) + POOL[(r + p + 5 * j) % len(POOL)] for j in range(k)]
    parts = [x[0] for x in pos] + [(n, '=') + x for n, x, _ in kws]
    val = ('D', ('constr', 'c', tuple(v for _, v in pos), tuple((n, v) for n, _, v in kws)))

    def text(parts):
        return ('c', '[') + tuple(_commas(parts)) + (']',)
    STAT.add(compare(text(parts), val))
    inner = ('{', 'zz', ':', '3', '*') + text(parts) + ('}',)
    compare(inner, ('D', ('struct', ('zz',), (('D', ('fixed', 3)) + val[1:],))))
    n = 2
    at = scale.positions(p + k, 0, 12)
    for i in at:
        swapped = parts[:i] + [parts[i], ()] + parts[i + 1:]
        compare(text(swapped), None)                      # an empty argument
        for j in at:
            if i < p <= j:                                # a positional argument behind a keyword
                compare(text(parts[:i] + parts[i + 1:j + 1] + [parts[i]] + parts[j + 1:]), None)
                n += 1
            elif p <= i < j:                              # keywords in another order
                ks = list(kws)
                ks[i - p], ks[j - p] = ks[j - p], ks[i - p]
                ps = list(parts)
                ps[i], ps[j] = ps[j], ps[i]
                compare(text(ps), ('D', ('constr', 'c', val[1][2], tuple((m, v) for m, _, v in ks))))
                n += 1
        if i:
            toks = ('c', '[') + tuple(_commas(parts[:i])) + tuple(_commas(parts[i:])) + (']',)
            if parts[i][:1] not in (('[',), ('{',)) and parts[i - 1] != ('?',):
                compare(toks, None)                       # a missing comma
                n += 1
        if i >= p:
            compare(text(parts[:i] + [('=',) + parts[i][1:]] + parts[i + 1:]), None)
            compare(text(parts[:i] + [parts[i][:2]] + parts[i + 1:]), None)
            n += 2
    compare(text(parts + [()]), None)
    STAT.add('transitions', n + len(at))
    return '%d positional, %d keyword' % (min(p, 9), min(k, 9))


def run_list(case):
    """a list of n items of one kind, alone and among arguments; another kind at every position is refused"""
    kind, n = case
    items = [ITEMS[kind](k) for k in range(n)]
    val = ('list', tuple(v for _, v in items))
    body = ['['] + _commas([x for x, _ in items]) + [']']
    for pre, post, a, kw in (((), (), (val,), ()), (('3', ','), (',', '"s"'), (('int', 3), val, ('str', 's')), ()), (('k', '='), (), (), (('k', val),)),
                             (('i', ',', 'k', '='), (',', 'm', '=', '3'), (('D', ('dtype', 'i')),), (('k', val), ('m', ('int', 3))))):
        compare(('c', '[') + pre + tuple(body) + post + (']',), ('D', ('constr', 'c', a, kw)))
    at = scale.positions(n, 0, 12)
    for i in at:
        for other in ITEMS:
            if other == kind or n == 1:
                continue
            x = [y for y, _ in items]
            x[i] = ITEMS[other](0)[0]
            # 3 * i is a type: a number in a list of types stays a number only by itself
            compare(('c', '[', '[') + tuple(_commas(x)) + (']', ']'), None)
        x = [y for y, _ in items]
        x[i] = ()
        compare(('c', '[', '[') + tuple(_commas(x)) + (']', ']'), None if n > 1 else ('D', ('constr', 'c', (('list', ()),), ())))
    compare(('c', '[', '[') + tuple(_commas([y for y, _ in items])) + (',', ']', ']'), None)
    STAT.add('transitions', 5 * len(at))
    return 'list of %s' % kind


def long_arguments(q):
    top = 5 if q else 8
    cs = [(p, k, r) for p in range(top + 1) for k in range(top + 1) if p + k for r in range(len(POOL))]
    cs += [(p, k, r) for n in scale.sizes(12, [16, 17, 32, 33] if q else scale.EDGES)[top:] for p, k in ((n, 0), (0, n), (n, 1), (1, n), (n, n)) for r in (0, 3, 7)]
    return Space('argument lists', cs, run_args, len(cs), None, str, 'constructors of many arguments, positional and keyword, and every one-place mistake')


def long_lists(q):
    cs = [(kind, n) for kind in ITEMS for n in scale.sizes(*((12, scale.EDGES) if q else (40, scale.MORE)))]
    return Space('long lists', cs, run_list, len(cs), None, str, 'list arguments of every kind and length; another kind at every position')


# ---- the default symbol table
STD = {'i': 'int32', 'c': 'option', 'v': 'var', 'k': 'fixed', 'all': 'ellipsis', 'zz': 'nosuch'}


class Refuse(Exception):
    pass


def to_term(v):
    """the type prescribed by a grammar value under the default symbol table"""
    dims = []
    for d in v[1:-1]:
        if d[0] == 'fixed':
            if d[1] < 0:
                raise Refuse()
            dims.append(('F', d[1]))
        elif d[0] == 'tvdim':
            dims.append(('T', d[1]))
        elif d[0] == 'elltv':
            dims.append(('E', d[1]))
        elif d[0] == 'kconstr':
            raise Refuse()
        elif d[0] == 'ell' or d == ('dim', 'all'):
            dims.append(('E', None))
        else:
            dims.append(('V',))
    if sum(d[0] == 'E' for d in dims) > 1:
        raise Refuse()
    m = v[-1]
    k = m[0]
    if k == 'tv':
        mm = ('tv', m[1])
    elif k == 'dtype':
        if m[1] == 'all':
            raise Refuse()
        mm = ('ct', 'int32')
    elif k == 'option':
        mm = ('opt', to_term(m[1]))
    elif k == 'constr':
        if m[1] != 'c' or len(m[2]) != 1 or m[3] or m[2][0][0] != 'D':
            raise Refuse()
        mm = ('opt', to_term(m[2][0]))
    elif k == 'struct':
        names = [STD.get(n, n) for n in m[1]]
        if len(set(names)) < len(names):
            raise Refuse()
        mm = ('rec', tuple(zip(names, map(to_term, m[2]))))
    elif k == 'tuple':
        mm = ('tup', tuple(map(to_term, m[1])))
    else:
        mm = ('fn', tuple(map(to_term, m[1])), to_term(m[2]))
    return t.ds(mm, *dims)


def standard(alphabet, n):
    L = lang(alphabet, n)

    def cases(shard, nsh):
        k = 0
        for m in range(1, n + 1):
            for toks in itertools.product(alphabet, repeat=m):
                k += 1
                if k % nsh == shard:
                    yield toks

    def run(toks):
        return std_compare(toks, L[len(toks)].get(toks))
    tot = sum(len(alphabet) ** m for m in range(1, n + 1))
    return Space('default table <=%d of %d' % (n, len(alphabet)), cases, run, tot, tot,
                 lambda c: g.join([STD.get(x, x) for x in c]))


def std_compare(toks, v):
    text = g.join([STD.get(x, x) for x in toks])
    expected = None
    if v is not None:
        if g.duplicate_kw(v):
            return 'unspecified'
        try:
            expected = to_term(v)
        except Refuse:
            pass
    try:
        o = D.dshape(text)
    except REFUSED as e:
        require(expected is None, '%s is refused: %s', text, type(e).__name__)
        return 'refused'
    got = t.observe(o)
    require(expected is not None, '%s is accepted as %s', text, got)
    require(t.strict_eq(got, expected), '%s reads as %s', text, got)
    return 'accepted'


def std_derivations(alphabets, n):
    seen = {}
    for a in alphabets:
        for m, sents in lang(a, n).items():
            seen.update(sents)
    items = list(seen.items())
    return Space('default table derivations <=%d' % n, items, lambda c: std_compare(*c), len(items), len(items),
                 lambda c: g.join([STD.get(x, x) for x in c[0]]))


# ---- terms under the default table
LAY = [0, 1, 2, 3]


def run_term(term):
    text = t.text(term)
    o = D.dshape(text)
    require(t.strict_eq(t.observe(o), term), '%s reads as %s', ascii(text), t.observe(o))
    return term[2][0]


def run_call(call):
    text, want = constr.text(call), constr.expect(call)
    try:
        o = D.dshape(text)
    except REFUSED as e:
        require(want in (None, 'refuse'), '%s is refused (%s: %s), expected %s', text, type(e).__name__,
                str(e).strip(), want)
        return call[0] + ' refused'
    if want is None:
        return call[0] + ' unspecified'
    got = t.observe(o)
    require(want != 'refuse', '%s is accepted as %s', text, got)
    require(t.strict_eq(got, t.ds(want)), '%s reads as %s instead of %s', text, got, want)
    return call[0] + ' accepted'


def constructor_calls(maxargs):
    def cases(shard, n):
        for i, c in enumerate(constr.calls(maxargs)):
            if i % n == shard:
                yield c
    return Space('constructor calls', cases, run_call, None, 0, constr.text,
                 'every documented constructor, every argument list over the argument alphabet, positional and keyword')


def constructor_keywords():
    """every placement of three arguments over the arguments that mean something to some constructor of three"""
    few = [k for k, (x, _) in enumerate(constr.ARGS) if x in ('int32', '7', "'A'", "''", 'True', 'False', '[]', '[int32, float64]', '[1, 2]', "['a', 'b']", '?string')]

    def cases(shard, n):
        for i, (name, ks, npos) in enumerate((name, ks, npos) for name in constr.NAMES for npos in range(4)
                                             for ks in itertools.permutations(constr.NAMES[name] + ['bogus'], 3 - npos)):
            if i % n == shard:
                for a in itertools.product(few, repeat=3):
                    yield name, a, ks
    return Space('constructor calls of three arguments', cases, run_call, None, 0, constr.text)


def spaces(tier):
    q = tier == 'quick'
    nest, edges = t.bfs(t.atoms(), t.contexts(), 2 if q else 3)
    wide = [g.MID, g.KW, g.STRUCT]
    small = [g.SMALL, g.KW, g.STRUCT, ['i', '(', ')', ',', '->', '*', '3', '?'],
             ['T', '...', '*', '{', '}', ':', '_o', ','], ['c', '[', ']', 'True', '"s"', ',', '3', 'T']]
    sp = [
        Space('terms', nest, run_term, len(nest), edges, lambda x: ascii(t.text(x))),
        Space('growth', scale.cases(tier), lambda c: run_term(scale.term(c)), None, 0, scale.show,
              'one thing at a time gets big; every single change'),
        constructor_calls(2 if q else 3),
        constructor_keywords(),
        long_arguments(q),
        long_lists(q),
        derivations([g.FULL], 5 if q else 6, range(7)),
        derivations(small, 9 if q else 10, (0, 1, 3)),
        std_derivations(small, 9 if q else 10),
        mutants(small, 7 if q else 8, g.FULL),
        standard(g.FULL, 4),
        all_sequences(g.FULL, 5),
        all_sequences(g.SMALL, 6 if q else 7),
    ]
    if not q:
        sp += [all_sequences(g.MID, 6), all_sequences(g.KW, 7), all_sequences(g.STRUCT, 7)]
    return sp
