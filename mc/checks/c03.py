"""C03  malformed text is refused cleanly and its error points at the right place"""
import itertools
from .. import terms as t
from .. import grammar as g
from .. import constr
from .. import scale
from ..core import Space, require, STAT
from .c02 import FREE, REFUSED, STD

D = t.D
from datashape import parser, lexer
from datashape.error import DataShapeSyntaxError

PROPERTY = 'C03'
TECHNIQUE = ('explicit-state enumeration: every string and token sequence up to a length, every truncation and '
             'one-character edit of model texts, every constructor call, each run on the real reader; error '
             'positions are decided by an Earley automaton of the grammar model')
NOTE = ('Exhaustive for the stated lengths and alphabets; termination is decided by a CPU-time watchdog per case. '
        'Texts longer than the bounds and nesting beyond 60 brackets are not covered.')
ASSUMPTIONS = ['nesting deeper than the interpreter can recurse is out of scope']
BOUNDS = {'quick': 'strings of length 4 over 29 characters, 4 over 18 kinds of line breaks and other characters, 5 over 16; token sequences of length 4 over 25; all '
                   'truncations and single-character edits of 440 texts; nesting to 60',
          'thorough': 'strings of length 5 over 29 characters, 5 over 18 kinds of line breaks and other characters, 6 over 16; token sequences of length 5; nesting to 60'}

CHARS = ['i', 'T', '8', '*', ',', '(', ')', '{', '}', '[', ']', ':', '?', '.', '-', '>', '=', "'", '"',
         '\\', '#', '\n', ' ', '0', '_', '\u00e9', '\0', 'var', 'string']
CORE = ['T', '8', '*', ',', '(', ')', '{', '}', '[', ':', '?', '...', "'", '\n', 'bool', 'option[']
BREAKS = ['\n', '\r', '\r\n', '\n\r', '\t', '\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\u2029', '\xa0', '#', '%', 'T', '*', '{', "'"]
EDIT = ['a', 'T', '8', '*', ',', '(', ')', '{', '}', '[', ']', ':', '?', '.', '-', '=', "'", '"',
        '\\', '#', '\n', ' ', '_', '\u00e9', '\ud800']


def tokens_of(text):
    """independent list of (start, end) of the tokens before the first bad character, and that position"""
    out, bad = [], None
    try:
        for k in lexer.lex(text):
            out.append(k.span)
    except DataShapeSyntaxError as e:
        bad = e.lexpos
    return out, bad


def check_error(e, text):
    pos = e.lexpos
    if e.text != text:
        # a string argument where a type belongs is itself read as text (or, as a sequence of types, character by character)
        inner = [k.val for k in lexer.lex(text) if k.name == 'STRING']
        require(any(e.text in x for x in inner), '%s: error describes another text %s', ascii(text), ascii(e.text))
        text = e.text
    require(0 <= pos <= len(text), '%s: error position %s', ascii(text), pos)
    before = text[:pos]
    lineno = before.count('\n') + 1
    col = pos - (before.rfind('\n') + 1)
    line = text.split('\n')[lineno - 1]
    require((e.lineno, e.col_offset, e.line) == (lineno, col, line),
            '%s: error at %d described as line %s column %s of %s', ascii(text), pos, e.lineno, e.col_offset, ascii(e.line))
    shown = str(e).split('\n')
    ok = any(a.endswith(line) and b.endswith('^') and b.strip(' ') == '^' and
             len(b) - 1 - (len(a) - len(line)) == col for a, b in zip(shown, shown[1:]))
    require(ok, '%s: pointer not under column %d in %s', ascii(text), col, ascii(str(e)))
    require(str(lineno) in str(e), '%s: line number missing in %s', ascii(text), ascii(str(e)))
    spans, bad = tokens_of(text)
    places = {s for s, _ in spans} | ({spans[-1][1]} if spans else {0})
    if bad is not None:
        places.add(bad)
    require(pos in places, '%s: error position %d is inside nothing', ascii(text), pos)
    return spans


def usable(o, text):
    s = str(o)
    p = D.dshape(s)
    require(p == o and hash(p) == hash(o), '%s gives %s which reads as another type', ascii(text), ascii(s))
    repr(o)
    require(t.strict_eq(t.observe(p), t.observe(o)), '%s gives %s which reads as another type', ascii(text), ascii(s))


def run_text(text):
    try:
        o = D.dshape(text)
    except DataShapeSyntaxError as e:
        check_error(e, text)
        return 'syntax error'
    except (TypeError, ValueError, NotImplementedError) as e:
        return type(e).__name__
    require(isinstance(o, D.DataShape), '%s gives %r', ascii(text), type(o))
    usable(o, text)
    return 'accepted'


def strings(alphabet, n):
    def cases(shard, nsh):
        k = 0
        if shard == 0:
            yield ''
        for m in range(1, n + 1):
            for head in itertools.product(alphabet, repeat=min(m, 2)):
                k += 1
                if k % nsh != shard:
                    continue
                h = ''.join(head)
                if m <= 2:
                    yield h
                else:
                    for rest in itertools.product(alphabet, repeat=m - 2):
                        yield h + ''.join(rest)
    tot = sum(len(alphabet) ** m for m in range(n + 1))
    return Space('strings <=%d of %d' % (n, len(alphabet)), cases, run_text, tot, tot, ascii,
                 'every string over the alphabet')


def edits(texts):
    def cases(shard, n):
        for i, s in enumerate(texts):
            if i % n == shard:
                yield s

    def run(s):
        seen = set()
        for i in range(len(s) + 1):
            v = [s[:i], s[i:]]
            if i < len(s):
                v.append(s[:i] + s[i + 1:])
                v += [s[:i] + c + s[i + 1:] for c in EDIT]
                v.append(s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:])
            v += [s[:i] + c + s[i:] for c in EDIT]
            for x in v:
                if x not in seen:
                    seen.add(x)
                    STAT.add(run_text(x))
        STAT.add('states', len(seen))
        STAT.add('transitions', len(seen))
        STAT.add('traces', len(seen))
        return 'ok'
    return Space('edits', cases, run, None, None, ascii,
                 'every truncation, deletion, replacement, insertion and swap of one character')


def token_errors(alphabet, n, styles=(0, 3)):
    def cases(shard, nsh):
        k = 0
        for m in range(1, n + 1):
            for head in itertools.product(alphabet, repeat=min(m, 2)):
                k += 1
                if k % nsh == shard:
                    for rest in itertools.product(alphabet, repeat=m - len(head)):
                        yield head + rest

    def run(toks):
        style = styles[len(toks) % len(styles)]
        text = g.join(toks, style)
        try:
            parser.parse(text, FREE)
        except DataShapeSyntaxError as e:
            spans = check_error(e, text)
            before = sum(1 for a, _ in spans if a < e.lexpos)
            good, _ = g.viable_length(toks)
            require(before <= good, '%s: error reported after token %d, but no valid text begins with the first %d tokens',
                    ascii(text), before, good + 1)
            return 'late by %d' % (good - before)
        except NotImplementedError:
            return 'not implemented'
        return 'accepted'
    tot = sum(len(alphabet) ** m for m in range(1, n + 1))
    return Space('token sequences <=%d of %d' % (n, len(alphabet)), cases, run, tot, tot, g.join,
                 'error position against the viable prefixes of the grammar model')


def nesting(depth):
    opens = [('(', ')'), ('{a:', '}'), ('option[', ']'), ('?(', ')'), ('3*(', ')'), ('map[int32,', ']'),
             ('struct[["a"],[', ']]'), ('() -> ', ''), ('2*', ''), ('...*', ''), ('fixed[', ']'), ('typevar[', ']'),
             ('ellipsis[', ']'), ('typevar[[', ']]'), ('categorical[[', ']]'), ('?', ''), ('[', ']'), ('x[', ']'),
             ('categorical[type=', ']'), ('units["m",', ']'), ('fixed[(', ')]')]
    cores = ['int32', '', 'T', '3', '*', "'a'", "'", 'var * int32', '...']
    out = []
    for k in list(range(1, 8)) + [15, 25, 40, depth]:
        for a, b in opens:
            for c in cores:
                for closed in (0, k - 1, k, k + 1):
                    out.append(a * k + c + b * closed)
        for (a, b), (x, y) in itertools.permutations(opens[:8] + opens[10:16], 2):
            out.append((a + x) * k + 'int32' + (y + b) * k)
    return list(dict.fromkeys(out))


def run_call(call):
    text = constr.text(call)
    return call[0] + ' ' + run_text(text)


def calls(maxargs):
    def cases(shard, n):
        for i, c in enumerate(constr.calls(maxargs)):
            if i % n == shard:
                yield c
    return Space('constructor calls', cases, run_call, None, 0, constr.text)


def run_growth(case):
    """a big text, on one line and on many, cut at every token and spoilt before every token"""
    text = t.text(scale.term(case))
    n = 0
    base, _ = tokens_of(text)
    if len(base) > 800:
        base = base[:40] + base[len(base) // 2 - 20:len(base) // 2 + 20] + base[-40:]
    for sep in ('', '\n ', ' # ; \n\n', '\r', '\x0b\r\n', '\u2028\x85'):
        pieces, last = [], 0
        for a, b in base:
            pieces.append(text[last:a] + sep)
            last = a
        whole = ''.join(pieces) + text[last:]
        usable(D.dshape(whole), whole)
        at = 0
        for k, ((a, b), p) in enumerate(zip(base, pieces)):
            at += len(p)                               # the token begins here
            for bad in (whole[:at] + ';' + whole[at:], whole[:at] + ';'):
                n += 1
                try:
                    o = D.dshape(bad)
                except DataShapeSyntaxError as e:
                    check_error(e, bad)
                    require(e.lexpos <= at, '%s: bad character at %d, error at %d', ascii(bad), at, e.lexpos)
                    continue
                require(False, '%s is accepted', ascii(bad))
            n += 1
            run_text(whole[:at])
    STAT.add('states', n)
    STAT.add('transitions', n)
    STAT.add('traces', n)
    return case[0]


DOCS = ['3 * var * int32', '{x: int32, y: string}', "10 * {a: int32, 'b c': ?float64}",
        "var * {name: string[7, 'ascii'], amount: complex[float64]}", '(int32, ?string) -> 3 * bool',
        "A... * M * datetime[tz='UTC']", "map[string, {a: decimal[precision=7, scale=2]}]",
        "categorical[['a', 'b'], type=string, ordered=True]", "units['kg', 3 * float32]",
        'option[{a: (int32,)}]', "struct[['a'], [int32]]", '{\n  a: int32, # first\n  b: {\n c: 2 * T }\n}',
        "funcproto[[int32], T]", 'tuple[[int32, string]]', "timedelta[unit='ms']", '... * ?json']


def spaces(tier):
    q = tier == 'quick'
    nest, _ = t.bfs(t.small_atoms(), t.contexts(), 1)
    texts = DOCS + [t.text(x) for x in nest + t.atoms()]
    texts = list(dict.fromkeys(texts))
    return [
        Space('nesting', nesting(60), run_text, None, 0, lambda s: ascii(s if len(s) < 200 else s[:200] + '...')),
        edits(texts),
        Space('growth', [c for c in scale.cases(tier, limit=65 if q else 260)
                         if c[2] is None and not ('categories' in c[0] and c[1] > 10)], run_growth, None, None, scale.show,
              'one thing at a time gets big; cut and spoilt at every token, on one line and on many'),
        calls(2 if q else 3),
        strings(CHARS, 4 if q else 5),
        strings(CORE, 5 if q else 6),
        strings(BREAKS, 4 if q else 5),
        token_errors(g.FULL, 4 if q else 5),
    ]
