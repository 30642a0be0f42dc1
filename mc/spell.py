"""Every documented spelling of a type term, as token lists, by number of deviations from the plain one."""
from . import terms as t
from .constr import ENC, TUNIT

ALIAS = {'int32': ['int'], 'float64': ['real'], 'int64': ['intptr'], 'uint64': ['uintptr'],
         'complex[float32]': ['complex64', 'complex [ float32 ]'],
         'complex[float64]': ['complex128', 'complex', 'complex [ real ]', 'complex [ float64 ]']}


def lit(s):
    a, b = t.quote(s, "'"), t.quote(s, '"')
    return [a, b]


def val(v):
    return lit(v) if isinstance(v, str) else [repr(v)]


def args(name, choices):
    """choices: list of token lists"""
    return [[name, '['] + c + [']'] for c in choices]


def listing(items):
    out = []
    for i, x in enumerate(items):
        out += ([','] if i else []) + x
    return ['['] + out + [']']


def leaf(m):
    """spellings of a measure without nested types, the plain one first"""
    k = m[0]
    if k == 'ct':
        return [m[1].replace('[', ' [ ').replace(']', ' ]').split()] + [a.split() for a in ALIAS.get(m[1], [])]
    if k == 'str':
        encs = [e for e in ENC if ENC[e] == m[2]]
        out = []
        if m[1] is None:
            if m[2] == 'U8':
                out.append(['string'])
            out += [['string', '[', q, ']'] for e in encs for q in lit(e)]
        else:
            if m[2] == 'U8':
                out.append(['string', '[', str(m[1]), ']'])
            out += [['string', '[', str(m[1]), ',', q, ']'] for e in encs for q in lit(e)]
        return out
    if k in ('date', 'json', 'null', 'bytes'):
        return [[k]]
    if k in ('time', 'dt'):
        n = 'time' if k == 'time' else 'datetime'
        if m[1] is None:
            return [[n]]
        return [[n, '['] + pre + [q, ']'] for pre in (['tz', '='], []) for q in lit(m[1])]
    if k == 'td':
        out = [['timedelta']] if m[1] == 'us' else []
        us = [m[1]] + [u for u in TUNIT if TUNIT[u] == m[1] and u != m[1]]
        return out + [['timedelta', '['] + pre + [q, ']'] for u in us for pre in (['unit', '='], []) for q in lit(u)]
    if k == 'dec':
        p, s = str(m[1]), str(m[2])
        out = [['decimal', '[', 'precision', '=', p, ',', 'scale', '=', s, ']'], ['decimal', '[', p, ',', s, ']'],
               ['decimal', '[', 'scale', '=', s, ',', 'precision', '=', p, ']'],
               ['decimal', '[', p, ',', 'scale', '=', s, ']']]
        if m[2] == 0:
            out += [['decimal', '[', p, ']'], ['decimal', '[', 'precision', '=', p, ']']]
        return out
    if k == 'tv':
        return [[m[1]]] + [['typevar', '[', q, ']'] for q in lit(m[1])]
    raise KeyError(k)


def dim(d):
    k = d[0]
    if k == 'F':
        return [[str(d[1])]]
    if k == 'V':
        return [['var']]
    if k == 'T':
        return [[d[1]]]
    return [['...'], ['ellipsis']] if d[1] is None else [[d[1], '...']]


def combine(parts, budget):
    """parts: list of lists of (tokens, cost) -> lists of ([tokens...], cost) within the budget"""
    out = [((), 0)]
    for p in parts:
        out = [(a + (b,), c + e) for a, c in out for b, e in p if c + e <= budget]
    return out


def alts(choices):
    return [(c, 1 if i else 0) for i, c in enumerate(choices)]


def names(ns):
    out = []
    for n in ns:
        c = lit(n)
        if n not in ('True', 'False') and n.isascii() and n.isidentifier():
            c = [n] + c
        out.append([([x], 1 if i else 0) for i, x in enumerate(c)])
    return out


def spell(term, budget):
    """-> list of (tokens, cost)"""
    res = []
    dims = [alts(dim(d)) for d in term[1]]
    for ds, c in combine(dims, budget):
        pre = [x for d in ds for x in d + ['*']]
        for toks, e in measure(term[2], budget - c):
            res.append((pre + toks, c + e))
    return res


def measure(m, budget):
    k = m[0]
    out = []

    def emit(parts, shapes):
        for vals, c in combine(parts, budget):
            for i, f in enumerate(shapes):
                cost = c + (1 if i else 0)
                if cost <= budget:
                    x = f(vals)
                    if x is not None:
                        out.append((x, cost))
    if k == 'opt':
        q = lambda v: ['?'] + v[0] if v[0][0] != '?' else None
        emit([spell(m[1], budget)], [lambda v: ['option', '['] + v[0] + [']'], q])
    elif k == 'rec':
        n = len(m[1])

        def braces(v, tail=()):
            o = []
            for i in range(n):
                o += ([','] if i else []) + v[i] + [':'] + v[n + i]
            return ['{'] + o + list(tail) + ['}']

        def struct(v):
            qs = [[x[0] if x[0][0] in '"\'' else "'%s'" % x[0]] for x in v[:n]]
            return ['struct', '['] + listing(qs) + [','] + listing(list(v[n:])) + [']']
        emit(names([a for a, _ in m[1]]) + [spell(b, budget) for _, b in m[1]],
             [braces, (lambda v: braces(v, [','])) if n else (lambda v: None), struct])
    elif k in ('tup', 'fn'):
        items = m[1]

        def paren(v, tail=()):
            o = []
            for i in range(len(items)):
                o += ([','] if i else []) + v[i]
            return ['('] + o + list(tail) + [')']
        n = len(items)
        if k == 'tup':
            emit([spell(x, budget) for x in items],
                 [paren, (lambda v: paren(v, [','])) if n else (lambda v: None),
                  lambda v: ['tuple', '['] + listing(list(v)) + [']']])
        else:
            emit([spell(x, budget) for x in items] + [spell(m[2], budget)],
                 [lambda v: paren(v) + ['->'] + v[n],
                  (lambda v: paren(v, [',']) + ['->'] + v[n]) if n else (lambda v: None),
                  lambda v: ['funcproto', '['] + listing(list(v[:n])) + [','] + v[n] + [']']])
    elif k == 'map':
        emit([spell(m[1], budget), spell(m[2], budget)],
             [lambda v: ['map', '['] + v[0] + [','] + v[1] + [']'],
              lambda v: ['map', '[', 'key', '='] + v[0] + [',', 'value', '='] + v[1] + [']'],
              lambda v: ['map', '[', 'value', '='] + v[1] + [',', 'key', '='] + v[0] + [']'],
              lambda v: ['map', '['] + v[0] + [',', 'value', '='] + v[1] + [']']])
    elif k == 'units':
        u = [([x], 1 if i else 0) for i, x in enumerate(lit(m[1]))]
        shapes = [lambda v: ['units', '['] + v[0] + [','] + v[1] + [']'],
                  lambda v: ['units', '[', 'unit', '='] + v[0] + [',', 'tp', '='] + v[1] + [']'],
                  lambda v: ['units', '[', 'tp', '='] + v[1] + [',', 'unit', '='] + v[0] + [']']]
        if m[2] == t.F64:
            shapes += [lambda v: ['units', '['] + v[0] + [']'], lambda v: ['units', '[', 'unit', '='] + v[0] + [']']]
        emit([u, spell(m[2], budget)], shapes)
    elif k == 'cat':
        vals = [[([x], 1 if i else 0) for i, x in enumerate(val(v))] for v in m[1]]
        n, o = len(m[1]), [str(m[3])]

        def f(kw):
            def g(v):
                c, ty = listing(list(v[:n])), v[n]
                ps = {'c': ['categories', '='] + c, 't': ['type', '='] + ty, 'o': ['ordered', '='] + o,
                      'C': c, 'T': ty, 'O': o}
                r = []
                for i, x in enumerate(kw):
                    r += ([','] if i else []) + ps[x]
                return ['categorical', '['] + r + [']']
            return g
        shapes = [f('Cto'), f('CTO'), f('cto'), f('otc'), f('CTo')]
        if not m[3]:
            shapes += [f('Ct'), f('CT')]
        kinds = {type(x) for x in m[1]}
        if (kinds == {int} and m[2] == ('ct', 'int64') or kinds == {bool} and m[2] == ('ct', 'bool')
                or kinds <= {str} and m[2] == t.STR[2]):
            shapes += [f('Co'), f('oc')]
            if not m[3]:
                shapes += [f('C')]
        emit(vals + [measure(m[2], budget)], shapes)
    else:
        out = [x for x in alts(leaf(m)) if x[1] <= budget]
    return out
