"""The documented grammar as a table of productions with semantic actions.

Two independent deciders are derived from the one table: a bottom-up generator of
every sentence up to a length (with its value) and a chart recogniser for single
token sequences.  Values are model tuples:

  ('D', comp, ...)                 a datashape: dimensions, then the data type
  ('fixed', n) ('tvdim', T) ('elltv', T) ('ell',) ('dim', name)
  ('dtype', name) ('tv', T) ('constr', name, args, kwargs)
  ('struct', names, types) ('tuple', items) ('fn', args, ret) ('option', ds)
Argument values are datashapes, ('int', n), ('str', s), ('bool', b), ('list', items).
"""

# token text -> classes it can stand for.  The names are those of the tables below.
TOKENS = {
    'T': ('UPPER', 'FNAME'),
    'i': ('LOWER', 'FNAME', 'DTYPE'),          # a data type only
    'c': ('LOWER', 'FNAME', 'DCONSTR'),        # a type constructor only
    'all': ('LOWER', 'FNAME', 'DTYPE', 'DCONSTR', 'DIM', 'KCONSTR'),
    'v': ('LOWER', 'FNAME', 'DIM'),            # a dimension only
    'k': ('LOWER', 'FNAME', 'KCONSTR'),        # a dimension constructor only
    'zz': ('LOWER', 'FNAME'),                  # in no table
    '_o': ('FNAME',),
    '"s"': ('STR', 'FNAME'),
    '3': ('INT',), '-1': ('INT',), '0': ('INT',),
    'True': ('BOOL',), 'False': ('BOOL',),
    '*': (), ',': (), '=': (), ':': (), '[': (), ']': (), '{': (), '}': (),
    '(': (), ')': (), '...': (), '->': (), '?': (),
}
FULL = ['i', 'T', '*', '?', '3', ',', '(', ')', '{', '}', '[', ']', ':', '...', 'v', 'all', 'c',
        '=', '"s"', '->', 'zz', 'True', 'k', '-1', '_o']
MID = ['i', '*', '?', '3', ',', '(', ')', '{', '}', '[', ']', ':', 'v', 'c', 'T', '...', '->', '=']
SMALL = ['i', '*', '?', '3', ',', '(', ')', '[', ']', 'c', 'all']
KW = ['i', 'c', '[', ']', ',', '=', '3', '"s"', 'zz', '*']
STRUCT = ['i', '{', '}', ':', ',', 'zz', '"s"', '?', 'v', '*']


def lit(tok):
    if tok in ('True', 'False'):
        return ('bool', tok == 'True')
    if tok[0] in '"\'':
        return ('str', tok[1:-1])
    return ('int', int(tok))


def fname(tok):
    return tok[1:-1] if tok[0] in '"\'' else tok


def dup(*a):
    raise Unspecified()


class Unspecified(Exception):
    pass


# nonterminal -> list of (rhs, action); rhs items: nonterminal, 'tok', or CLASS
def _first(*a):
    return a[0]


RULES = {
    'ds': [(('dsn',), _first), (("'?", 'dsn'), lambda q, d: ('D', ('option', d)))],
    'dsn': [(('dim', "'*", 'ds'), lambda d, s, r: ('D', d) + r[1:]),
            (('dtype',), lambda t: ('D', t))],
    'dim': [(('UPPER',), lambda x: ('tvdim', x)),
            (('UPPER', "'..."), lambda x, e: ('elltv', x)),
            (('DIM',), lambda x: ('dim', x)),
            (('INT',), lambda x: ('fixed', int(x))),
            (("'...",), lambda e: ('ell',)),
            # in the grammar, but documented as not supported yet
            (('KCONSTR', "'[", 'args', "']"), lambda n, l, a, r: ('kconstr',))],
    'dtype': [(('UPPER',), lambda x: ('tv', x)),
              (('DTYPE',), lambda x: ('dtype', x)),
              (('DCONSTR', "'[", 'args', "']"), lambda n, l, a, r: ('constr', n) + a),
              (('struct',), _first), (('tup',), _first),
              (('tup', "'->", 'ds'), lambda t, a, r: ('fn', t[1], r))],
    'struct': [(("'{", "'}"), lambda a, b: ('struct', (), ())),
               (("'{", 'fields', "'}"), lambda a, f, b: ('struct',) + tuple(zip(*f))),
               (("'{", 'fields', "',", "'}"), lambda a, f, c, b: ('struct',) + tuple(zip(*f)))],
    'fields': [(('field',), lambda f: (f,)), (('fields', "',", 'field'), lambda s, c, f: s + (f,))],
    'field': [(('FNAME', "':", 'ds'), lambda n, c, d: (fname(n), d))],
    'tup': [(("'(", "')"), lambda a, b: ('tuple', ())),
            (("'(", 'items', "')"), lambda a, i, b: ('tuple', i)),
            (("'(", 'items', "',", "')"), lambda a, i, c, b: ('tuple', i))],
    'items': [(('ds',), lambda d: (d,)), (('items', "',", 'ds'), lambda s, c, d: s + (d,))],
    'args': [(('pos',), lambda p: (p, ())), (('kws',), lambda k: ((), k)),
             (('pos', "',", 'kws'), lambda p, c, k: (p, k))],
    'pos': [(('arg',), lambda a: (a,)), (('pos', "',", 'arg'), lambda p, c, a: p + (a,))],
    'kws': [(('kw',), lambda k: (k,)), (('kws', "',", 'kw'), lambda p, c, k: p + (k,))],
    'kw': [(('LOWER', "'=", 'arg'), lambda n, e, a: (n, a))],
    'arg': [(('ds',), _first), (('INT',), lit), (('STR',), lit), (('BOOL',), lit),
            (("'[", "']"), lambda a, b: ('list', ())),
            (("'[", 'items', "']"), lambda a, i, b: ('list', i)),
            (("'[", 'ints', "']"), lambda a, i, b: ('list', i)),
            (("'[", 'strs', "']"), lambda a, i, b: ('list', i)),
            (("'[", 'bools', "']"), lambda a, i, b: ('list', i))],
    'ints': [(('INT',), lambda x: (lit(x),)), (('ints', "',", 'INT'), lambda s, c, x: s + (lit(x),))],
    'strs': [(('STR',), lambda x: (lit(x),)), (('strs', "',", 'STR'), lambda s, c, x: s + (lit(x),))],
    'bools': [(('BOOL',), lambda x: (lit(x),)), (('bools', "',", 'BOOL'), lambda s, c, x: s + (lit(x),))],
}


def minlen():
    m = {n: 99 for n in RULES}
    changed = True
    while changed:
        changed = False
        for n, rs in RULES.items():
            for rhs, _ in rs:
                v = sum(m.get(x, 1) for x in rhs)
                if v < m[n]:
                    m[n], changed = v, True
    return m


MIN = minlen()


def terminal(sym, tok):
    if sym[0] == "'":
        return sym[1:] == tok
    return sym in TOKENS[tok]


def generate(alphabet, maxlen, start='ds'):
    """-> {length: {tokens: value}} of every sentence over `alphabet`"""
    table = {n: {} for n in RULES}
    done = {}
    term = {}
    for n, rs in RULES.items():
        for rhs, _ in rs:
            for x in rhs:
                if x not in RULES:
                    term[x] = [t for t in alphabet if terminal(x, t)]

    def get(x, n):
        if x not in RULES:
            return {(t,): t for t in term[x]} if n == 1 else {}
        return lang(x, n)

    active = set()

    def lang(x, n):
        if (x, n) in done:
            return done[x, n]
        if n < MIN[x]:
            return {}
        assert (x, n) not in active, 'cyclic grammar'
        active.add((x, n))
        out = {}

        def expand(rhs, k, left, toks, vals, act):
            if k == len(rhs):
                if left == 0:
                    v = act(*vals)
                    if toks in out and out[toks] != v:
                        raise AssertionError('ambiguous: %r' % (toks,))
                    out[toks] = v
                return
            rest = sum(MIN.get(y, 1) for y in rhs[k + 1:])
            last = k == len(rhs) - 1
            for m in ([left] if last else range(MIN.get(rhs[k], 1), left - rest + 1)):
                for tk, v in get(rhs[k], m).items():
                    expand(rhs, k + 1, left - m, toks + tk, vals + (v,), act)

        for rhs, act in RULES[x]:
            expand(rhs, 0, n, (), (), act)
        active.discard((x, n))
        done[x, n] = out
        return out

    return {n: lang(start, n) for n in range(1, maxlen + 1)}


def recognise(toks, start='ds'):
    """value of the token sequence, or None"""
    memo = {}
    n = len(toks)

    def nt(x, i, j):
        key = (x, i, j)
        if key in memo:
            return memo[key]
        memo[key] = None
        for rhs, act in RULES[x]:
            for vals in seq(rhs, 0, i, j):
                memo[key] = (act(*vals),)
                return memo[key]
        return None

    def seq(rhs, k, i, j):
        x = rhs[k]
        rest = sum(MIN.get(y, 1) for y in rhs[k + 1:])
        if k == len(rhs) - 1:
            ends = (j,) if j > i else ()
        elif x in RULES:
            ends = range(i + MIN[x], j - rest + 1)
        else:
            ends = (i + 1,) if i + 1 <= j - rest else ()
        for e in ends:
            if x in RULES:
                r = nt(x, i, e)
            else:
                r = (toks[i],) if e == i + 1 and terminal(x, toks[i]) else None
            if r is None:
                continue
            if k == len(rhs) - 1:
                yield (r[0],)
            else:
                for more in seq(rhs, k + 1, e, j):
                    yield (r[0],) + more
    r = nt(start, 0, n) if n else None
    return r[0] if r else None


_FLAT = [(n, rhs) for n, rs in RULES.items() for rhs, _ in rs]
_BY = {n: [i for i, r in enumerate(_FLAT) if r[0] == n] for n in RULES}


def viable_length(toks, start='ds'):
    """Earley: (length of the longest prefix that begins some sentence, is all of it a sentence)"""
    sets = [set()]
    for r in _BY[start]:
        sets[0].add((r, 0, 0))
    for i in range(len(toks) + 1):
        cur = sets[i]
        work = list(cur)
        while work:
            r, dot, org = work.pop()
            rhs = _FLAT[r][1]
            if dot == len(rhs):
                new = [(r2, d2 + 1, o2) for r2, d2, o2 in sets[org]
                       if d2 < len(_FLAT[r2][1]) and _FLAT[r2][1][d2] == _FLAT[r][0]]
            elif rhs[dot] in RULES:
                new = [(x, 0, i) for x in _BY[rhs[dot]]]
            else:
                continue
            for it in new:
                if it not in cur:
                    cur.add(it)
                    work.append(it)
        if i == len(toks):
            done = any(d == len(_FLAT[r][1]) and o == 0 and _FLAT[r][0] == start for r, d, o in cur)
            return i, done
        nxt = {(r, d + 1, o) for r, d, o in cur
               if d < len(_FLAT[r][1]) and _FLAT[r][1][d] not in RULES and terminal(_FLAT[r][1][d], toks[i])}
        if not nxt:
            return i, False
        sets.append(nxt)


def unsupported(v):
    """does the value use a dimension constructor?"""
    return isinstance(v, tuple) and (v == ('kconstr',) or any(map(unsupported, v)))


def duplicate_kw(v):
    """does a constructor get the same keyword twice (unspecified)?"""
    if isinstance(v, tuple):
        if v and v[0] == 'constr' and len({k for k, _ in v[3]}) < len(v[3]):
            return True
        return any(map(duplicate_kw, v))
    return False


def join(toks, style=0):
    if style == 0:
        return ' '.join(toks)
    if style == 1:                           # as tight as the lexer allows
        out = ''
        for x in toks:
            if out and (out[-1].isalnum() or out[-1] == '_') and (x[0].isalnum() or x[0] == '_'):
                out += ' '
            out += x
        return out
    sep = {2: '\n', 3: ' # c*[{\n\t', 4: '\r\n', 5: '\x0b\u00a0\u2003 ', 6: '#\n##x\n '}[style]
    return sep + sep.join(toks) + sep
