"""C05  every way of writing a type means the same type"""
from .. import terms as t
from .. import spell as sp
from .. import scale
from ..core import Space, require, STAT

D = t.D
PROPERTY = 'C05'
TECHNIQUE = ('deviation-bounded enumeration: every type term up to a depth, and for each every combination of up to '
             'two (thorough: three) departures from the plain spelling, replayed on the real parser')
NOTE = ('Exhaustive for the stated depth, atoms and number of simultaneous deviations. The spelling table is '
        'written from the documentation; each spelling must read as the model term, not merely as equal types.')
BOUNDS = {'quick': 'depth 2 with one deviation, depth 1 with two, depth 1 over small atoms with three', 'thorough': 'depth 2 with two deviations, depth 3 with one, depth 1 with three, depth 1 over small atoms with four'}

SEPS = ['', '\n', '\t# x * {[("\n ', '  \r\n', ' #\n#\n']


def tight(toks):
    out = ''
    for x in toks:
        if out and (out[-1].isalnum() or out[-1] == '_') and (x[0].isalnum() or x[0] == '_'):
            out += ' '
        out += x
    return out


def check(text, o, h, s, term):
    p = D.dshape(text)
    require(t.strict_eq(t.observe(p), term), '%s reads as %s instead of %s', ascii(text), ascii(t.observe(p)), ascii(term))
    require(p == o and o == p and not p != o, '%s is not equal to the same type written plainly', ascii(text))
    require(hash(p) == h, '%s has another hash', ascii(text))
    require(str(p) == s, '%s prints differently', ascii(text))


def runner(budget):
    def run(term):
        o = t.build(term)
        h, s = hash(o), str(o)
        sps = sp.spell(term, budget)
        n = 0
        for toks, cost in sps:
            check(' '.join(toks), o, h, s, term)
            n += 1
            if cost < budget:
                check(tight(toks), o, h, s, term)
                n += 1
        for sep in SEPS[1:]:
            check(sep + sep.join(sps[0][0]) + sep, o, h, s, term)
            n += 1
        STAT.add('states', n)
        STAT.add('transitions', n - 1)
        STAT.add('traces', n)
        return term[2][0]
    return run


def extra_atoms():
    out = []
    for e in ('A', 'U8', 'U16', 'U32'):
        for n in (None, 0, 1, 30):
            out.append(t.ds(('str', n, e)))
    out += [t.ds(('td', u)) for u in t.UNITS]
    out += [t.ds(('dec', p, s)) for p in (1, 18, 38) for s in (0, 2)]
    for vals, ty in ((('a',), t.STR[2]), (('a', 'b'), t.STR[2]), ((1, 2), ('ct', 'int64')), ((True,), ('ct', 'bool')),
                     (("it's", '"'), t.STR[2]), (('a',), ('str', 3, 'A')), ((), t.STR[2])):
        out += [t.ds(('cat', vals, ty, o)) for o in (False, True)]
    return out


def spaces(tier):
    q = tier == 'quick'
    start = list(dict.fromkeys(t.atoms() + extra_atoms()))
    d1, _ = t.bfs(start, t.contexts(), 1)
    d2, _ = t.bfs(t.atoms(), t.contexts(), 2)
    show = lambda x: ascii(t.text(x))
    s1, _ = t.bfs(t.small_atoms(), t.contexts(), 1)
    out = [Space('small depth 1, %d deviations' % (3 if q else 4), s1, runner(3 if q else 4), None, None, show),
           Space('depth 1, %d deviations' % (2 if q else 3), d1, runner(2 if q else 3), None, None, show),
           Space('depth 2, %d deviations' % (1 if q else 2), d2, runner(1 if q else 2), None, None, show)]
    out.append(Space('growth', [c for c in scale.cases(tier) if c[2] is None], lambda c: runner(1)(scale.term(c)), None, None, scale.show,
                     'one thing at a time gets big; one deviation'))
    if not q:
        d3, _ = t.bfs(t.atoms(), t.contexts(), 3)
        out.append(Space('depth 3, one deviation', d3, runner(1), None, None, show))
    return out
