"""C04  the lexer splits every text into the tokens the grammar defines"""
import itertools
from .. import scale
from .. import terms as t
from ..core import Space, require, STAT
from datashape import lexer
from datashape.error import DataShapeSyntaxError

PROPERTY = 'C04'
TECHNIQUE = ('explicit-state enumeration: every string up to a length over an alphabet with characters of every class, '
             'compared with a character-by-character reference automaton')
NOTE = ('Exhaustive for the stated lengths and alphabets and for every single code point in each context. The '
        'reference lexer is hand-written without regular expressions.')
BOUNDS = {'quick': 'length 4 over 29 characters, 5 over 17 words, string bodies of length 4 over 17 pieces, all code '
                   'points below 0x10000 in 5 contexts',
          'thorough': 'length 5 over 29 characters, 6 over 17 words, bodies of length 5, all code points'}

PUNCT = {'*': 'ASTERISK', ',': 'COMMA', '=': 'EQUAL', ':': 'COLON', '[': 'LBRACKET', ']': 'RBRACKET',
         '{': 'LBRACE', '}': 'RBRACE', '(': 'LPAREN', ')': 'RPAREN', '?': 'QUESTIONMARK'}
LOW = set('abcdefghijklmnopqrstuvwxyz')
UP = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIG = set('0123456789')
WORD = LOW | UP | DIG | {'_'}
HEX = DIG | set('abcdefABCDEF')
ESC = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}


def reference(s):
    """-> (tokens [(name, start, end, val)], position of the first bad character or None)"""
    out, i, n = [], 0, len(s)
    while True:
        while i < n:                                  # skip
            if s[i].isspace():
                i += 1
            elif s[i] == '#':
                while i < n and s[i] != '\n':
                    i += 1
            else:
                break
        if i >= n:
            return out, None
        c = s[i]
        j = None
        if c in LOW or c in UP or c == '_':
            j = i
            while j < n and s[j] in WORD:
                j += 1
            w = s[i:j]
            if w in ('True', 'False'):
                tok = ('BOOLEAN', w == 'True')
            else:
                tok = ('NAME_LOWER' if c in LOW else 'NAME_UPPER' if c in UP else 'NAME_OTHER', w)
        elif c in PUNCT:
            j, tok = i + 1, (PUNCT[c], None)
        elif s.startswith('...', i):
            j, tok = i + 3, ('ELLIPSIS', None)
        elif s.startswith('->', i):
            j, tok = i + 2, ('RARROW', None)
        elif c == '0':
            if not (i + 1 < n and s[i + 1] in DIG):
                j, tok = i + 1, ('INTEGER', 0)
        elif c in DIG or c == '-' and i + 1 < n and s[i + 1] in DIG and s[i + 1] != '0':
            j, v = i + 1, 0
            k = i if c in DIG else i + 1
            j = k
            while j < n and s[j] in DIG:
                v = v * 10 + '0123456789'.index(s[j])
                j += 1
            tok = ('INTEGER', -v if c == '-' else v)
        elif c in '"\'':
            k, val = i + 1, []
            while k < n:
                if s[k] == c:
                    j, tok = k + 1, ('STRING', ''.join(val))
                    break
                if s[k] in '\n\r':
                    break
                if s[k] != '\\':
                    val.append(s[k])
                    k += 1
                elif k + 1 < n and s[k + 1] in ESC:
                    val.append(ESC[s[k + 1]])
                    k += 2
                elif k + 1 < n and s[k + 1] == c:
                    val.append(c)
                    k += 2
                elif s[k + 1:k + 2] == 'u' and k + 6 <= n and all(x in HEX for x in s[k + 2:k + 6]):
                    val.append(chr(int(s[k + 2:k + 6], 16)))
                    k += 6
                else:
                    break
        if j is None:
            return out, i
        out.append((tok[0], i, j, tok[1]))
        i = j


def run(s):
    want, bad = reference(s)
    got, pos = [], None
    try:
        for k in lexer.lex(s):
            got.append((k.name, k.span[0], k.span[1], k.val))
            require(k.id == getattr(lexer, k.name), '%s: id of %s', ascii(s), k.name)
    except DataShapeSyntaxError as e:
        pos = e.lexpos
    require(pos == bad, '%s: refused at %s, expected %s', ascii(s), pos, bad)
    require(len(got) == len(want) and all(a == b and type(a[3]) is type(b[3]) for a, b in zip(got, want)),
            '%s lexes as %s, expected %s', ascii(s), ascii(got), ascii(want))
    return 'refused' if bad is not None else '%d tokens' % len(want)


CHARS = ['a', 'T', '0', '1', '-', '>', '.', '*', ',', '=', ':', '[', ']', '{', '}', '(', ')', '?', '"', "'",
         '\\', 'u', 'n', '#', '\n', ' ', '_', '\r', '\u00e9']
WORDS = ['True', 'False', 'T', 'e', '_', '0', '7', '-', '>', '.', '...', '"', "'", '#', '\n', ' ', '\\']
BODY = ['"', "'", '\\', 'u', '0', '0041', 'd83d', 'n', 't', 'x', '\n', '\r', '\u00e9', '\0', ' ', '#', 'A']


def product(name, alphabet, n, wrap=lambda s: (s,)):
    def cases(shard, nsh):
        k = 0
        if shard == 0:
            for x in wrap(''):
                yield x
        for m in range(1, n + 1):
            for head in itertools.product(alphabet, repeat=min(m, 2)):
                k += 1
                if k % nsh == shard:
                    for rest in itertools.product(alphabet, repeat=m - len(head)):
                        for x in wrap(''.join(head) + ''.join(rest)):
                            yield x
    tot = sum(len(alphabet) ** m for m in range(n + 1)) * len(wrap(''))
    return Space(name, cases, run, tot, tot, ascii)


def codepoints(limit):
    def cases(shard, n):
        for i in range(shard, limit, n):
            c = chr(i)
            for s in (c, 'a' + c + 'b', "'" + c + "'", '#' + c + '\nz', '1' + c + '2', '"\\' + c + '"'):
                yield s
    return Space('code points', cases, run, limit * 6, limit * 6, ascii)


def numbers():
    out = []
    for i in list(range(0, 1200)) + [10 ** k + d for k in range(3, 40) for d in (-1, 0, 1)]:
        for pre in ('', '-', '0', '-0', '--', '+', '00'):
            for post in ('', 'a', ' 1', '.', '->', '.5', '_'):
                out.append(pre + str(i) + post)
    return out


def escapes():
    out = []
    for i in range(0x10000):
        out.append('"a\\u%04xb"' % i)
    for i in range(0, 0x10000, 257):
        out += ["'\\u%04X'" % i, "'\\u%04x\\u%04x'" % (i, 0xffff - i), '"\\u%03x"' % (i & 0xfff), "'\\u%05x'" % i]
    return out


def grown(tier):
    """every kind of token and gap at growing lengths, and the texts of grown types"""
    out = []
    for n in scale.sizes(*((40, scale.EDGES) if tier == 'quick' else (140, scale.MORE))):
        for c in ('a', 'T', '_', '1', ' ', '\n', '#', '(', '.', '-', '?', '"', "'", '\\', '->', '...', "''", '""', '"a"', '0', '\\n', '10', '-1 ', 'a ',
                  'True', 'True ', '# \n', '\t\r', '\u00e9', ', '):
            s = c * n
            out += [s, s + ';', ';' + s, 'a' + s + '1', "'" + s + "'", '"%s' % s, '1' + s, '# ' + s + '\n,', '-' + s]
        for k in scale.positions(n, 0, 20):
            for c in ';"\\_A\n#1':
                s = 'b' * k + c + 'b' * (n - k)
                out += [s, "'%s'" % s, '#' + s, '2' * k + c + '2' * (n - k), ' ' * k + c + ' ' * (n - k) + 'x']
    out += [t.text(scale.term(c)) for c in scale.cases(tier) if c[2] is None]
    return list(dict.fromkeys(out))


def spaces(tier):
    q = tier == 'quick'
    nums, escs, big = numbers(), escapes(), grown(tier)
    return [
        Space('numbers', nums, run, len(nums), 0, ascii),
        Space('escapes', escs, run, len(escs), 0, ascii, 'every \\u escape'),
        Space('growth', big, run, len(big), 0, lambda s: ascii(s if len(s) < 200 else s[:200] + '...'), 'every kind of token and gap at growing lengths'),
        product('string bodies', BODY, 4 if q else 5, lambda s: ("'%s'" % s, '"%s"' % s, '"a%s z' % s)),
        product('words', WORDS, 5 if q else 6),
        product('characters', CHARS, 4 if q else 5),
        codepoints(0x10000 if q else 0x110000),
    ]
