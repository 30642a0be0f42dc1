"""C20  type sets, supertypes and maximal types are consistent"""
import itertools
import numpy as np
from .. import scale
from .. import terms as t
from ..variants import family
from ..core import Space, require, STAT
from datashape import typesets as TS

D, T = t.D, t.T
PROPERTY = 'C20'
TECHNIQUE = ('exhaustive enumeration of all types of a closed family, of every subset of the native types as a type set and of pairs of '
             'them as unions; every answer is compared with finite set algebra and a table of widths')
NOTE = ('Exhaustive within the bounds. Type sets with repeated members and the empty signature are left unspecified; types sets are '
        'equal when they have the same name and the same types in the same order.')
BOUNDS = {'quick': 'all 16384 subsets of 14 types; unions of all pairs of 220 subsets; all types of depth 2',
          'thorough': 'unions of all pairs of 1000 subsets; all types of depth 3'}

MEMBERS = {
    'signed': ['int8', 'int16', 'int32', 'int64'], 'unsigned': ['uint8', 'uint16', 'uint32', 'uint64'], 'floating': ['float16', 'float32', 'float64'],
    'complexes': ['complex[float32]', 'complex[float64]'], 'boolean': ['bool'],
}
MEMBERS['integral'] = MEMBERS['signed'] + MEMBERS['unsigned']
MEMBERS['real'] = MEMBERS['integral'] + MEMBERS['floating']
MEMBERS['numeric'] = MEMBERS['real'] + MEMBERS['complexes']
MEMBERS['scalar'] = MEMBERS['numeric'] + MEMBERS['boolean']
NAMES = MEMBERS['scalar']
KIND = {n: s for s in ('signed', 'unsigned', 'floating', 'complexes', 'boolean') for n in MEMBERS[s]}
WIDEST = {'signed': 'int64', 'unsigned': 'uint64', 'floating': 'float64', 'complexes': 'complex[float64]', 'boolean': 'bool'}


def objs():
    return {n: t.build_measure(('ct', n)) for n in NAMES}


def the_set(name):
    return getattr(TS, name)


def run_type(term):
    ds = t.build(term)
    s = ascii(t.text(term))
    m = ds.measure
    bare = not term[1]
    k = term[2]
    opt = k[0] == 'opt' and not k[1][1]
    inner = k[1][2] if opt else k
    num = inner[0] == 'ct' and inner[1] in KIND
    # supertype of a measure
    if bare:
        try:
            r = TS.supertype(m)
        except AssertionError:
            r = None
        want = the_set(KIND[inner[1]]) if num else None
        require(r is want or r == want, 'supertype(%s) is %r', s, r)
        if num:
            require((m.ty if opt else m) in r, '%s is not in its supertype', s)
            if not opt:
                require(TS.supertype(ds) == want, 'supertype of the datashape %s', s)
    # maxtype
    if bare:
        for form in (m, ds):
            try:
                r = D.maxtype(form)
            except TypeError:
                r = None
            if num:
                want = ('ct', WIDEST[KIND[inner[1]]])
            elif inner[0] in ('dec', 'td'):
                want = inner
            else:
                want = None
            if want is not None and opt:
                want = ('opt', t.ds(want))
            require((r is None) == (want is None) and (r is None or t.strict_eq(t.observe(r), t.ds(want))), 'maxtype(%s) is %r', s, r)
            if r is not None:
                require(D.maxtype(r) == r, 'maxtype of maxtype(%s) = %s is %s', s, r, D.maxtype(r))
                if num:
                    x = r.ty if opt else r
                    sup = TS.supertype(r)
                    require(x in sup and all(x.itemsize >= y.itemsize for y in sup), 'maxtype(%s) = %s is not the widest of %s', s, r, sup)
                    require(sup == TS.supertype(m), 'maxtype(%s) is in another set', s)
    # membership in the named sets
    for name in MEMBERS:
        want = bare and k[0] == 'ct' and k[1] in MEMBERS[name]
        ts = the_set(name)
        for form in (m, ds) if bare else (ds,):
            require((form in ts) == want, '%s in %s is %s', s, name, form in ts)
            STAT.add('transitions')
            if bare and k[0] != 'rec':            # a record cannot be iterated over
                require(bool(TS.matches_typeset(form, ts)) == want, 'matches_typeset(%s, %s)', s, name)
    require(t.strict_eq(t.observe(ds), term), '%s changed', s)
    return 'num' if num else inner[0]


def run_named(name):
    ts = the_set(name)
    o = objs()
    want = [o[n] for n in MEMBERS[name]]
    require(set(ts) == set(want) and set(ts.types) == set(want) and len(ts) == len(want) and len(list(ts)) == len(want), '%s has the members %s', name, ts.types)
    require(ts.name == name and repr(ts) == '{%s}' % name, '%s is named %s', name, ts.name)
    require(TS.registry[name] is ts and TS.lookup(name) is ts, 'the registered %s is %s', name, TS.lookup(name))
    for other in MEMBERS:
        b = the_set(other)
        require((ts == b) == (name == other) and (ts != b) == (name != other), '%s == %s', name, other)
        u = ts | b
        require(set(u) == set(ts) | set(b) and len(u) == len(set(ts) | set(b)) and u.name is None, '%s | %s is %s', name, other, u)
    for x in ('nope', 'int32', ''):
        require(TS.lookup(x) is None, 'lookup(%r)', x)
        try:
            TS.registry[x]
        except KeyError:
            continue
        require(False, 'registry[%r] exists', x)
    return 'ok'


def subset(i):
    return [NAMES[j] for j in range(len(NAMES)) if i >> j & 1]


def run_subset(i):
    o = objs()
    names = subset(i)
    mem = [o[n] for n in names]
    for order in (mem, mem[::-1]):
        a = D.TypeSet(*order)
        require(list(a) == order and tuple(a.types) == tuple(order) and len(a) == len(order) and a.name is None, 'TypeSet of %s is %s', names, a.types)
        for n in NAMES:
            require((o[n] in a) == (n in names), '%s in TypeSet(%s) is %s', n, names, o[n] in a)
            require((T.DataShape(o[n]) in a) == (n in names), 'dshape(%s) in TypeSet(%s)', n, names)
            require(T.Option(o[n]) not in a, '?%s in TypeSet(%s)', n, names)
            STAT.add('transitions', 3)
        b = D.TypeSet(*order)
        require(a == b and not a != b and hash(a) == hash(b), 'TypeSet(%s) is not equal to itself', names)
        c = D.TypeSet(*order[1:])
        require((a == c) == (not order) and (a != c) == bool(order), 'TypeSet(%s) equals %s', names, c)
        require(a != set(order) and a != tuple(order) and not a == None and a != T.int32, 'TypeSet(%s) equals something else', names)
    return '%d' % len(names)


def run_union(case):
    i, j = case
    o = objs()
    a, b = D.TypeSet(*[o[n] for n in subset(i)]), D.TypeSet(*[o[n] for n in subset(j)])
    u = a | b
    want = set(subset(i)) | set(subset(j))
    require(isinstance(u, D.TypeSet) and len(u) == len(want), 'len(%s | %s) is %d', a, b, len(u))
    require(set(u) == set(o[n] for n in want) and all((o[n] in u) == (n in want) for n in NAMES), '%s | %s is %s', a, b, u.types)
    require(len(a) == len(subset(i)) and len(b) == len(subset(j)), 'a union changed its operands')
    require(set(b | a) == set(u), 'union is not symmetric')
    return '%d' % len(want)


def run_sig(case):
    types, sig = case
    o = objs()
    ty = tuple(o[n] for n in types)
    sg = tuple(the_set(n) if n in MEMBERS else o[n] for n in sig)
    want = all(n in MEMBERS[s] if s in MEMBERS else n == s for n, s in zip(types, sig))
    got = D.matches_typeset(ty, sg)
    require(bool(got) == want, 'matches_typeset(%s, %s) is %s', types, sig, got)
    require(bool(D.matches_typeset(list(ty), sg)) == want, 'matches_typeset(%s, %s) of a list', types, sig)
    return str(want)


def run_grown(case):
    return run_type(scale.term(case))


def run_long_sig(case):
    """long signatures which fit, but for one place"""
    n, s = case
    o = objs()
    order = [NAMES[k % len(NAMES)] for k in range(n)]
    sig = [NAMES[k % len(NAMES)] if s == 'types' else [m for m in MEMBERS if NAMES[k % len(NAMES)] in MEMBERS[m]][k % 2 - 1] for k in range(n)]
    sg = tuple(the_set(x) if x in MEMBERS else o[x] for x in sig)
    for i in [None] + list(range(n)):
        for other in NAMES if i is not None else NAMES[:1]:
            types = [other if k == i else x for k, x in enumerate(order)]
            want = all(x in MEMBERS[y] if y in MEMBERS else x == y for x, y in zip(types, sig))
            got = D.matches_typeset(tuple(o[x] for x in types), sg)
            require(bool(got) == want, 'matches_typeset(%s, %s) is %s', types, sig, got)
            STAT.add('traces')
    return s


def run_big_set(case):
    """sets of many types"""
    kind, n = case
    mk = {'string': lambda k: T.String(k + 1), 'record': lambda k: T.Record([('f%d' % k, T.int32)]), 'decimal': lambda k: T.Decimal(k + 1, 0),
          'time zone': lambda k: T.DateTime(tz='Z%d' % k)}[kind]
    mem = [mk(k) for k in range(n)]
    out = [mk(n + k) for k in range(3)]
    a = D.TypeSet(*mem)
    require(len(a) == n and list(a) == mem and list(a.types) == mem, 'TypeSet of %d has the members %s', n, a.types)
    for k in range(n):
        require(mk(k) in a and T.DataShape(mk(k)) in a, 'member %d of %d is not in the set', k, n)
        require(bool(D.matches_typeset((mk(k),), (a,))), 'member %d of %d does not match', k, n)
        b = D.TypeSet(*(mem[:k] + out[:1] + mem[k + 1:]))
        require(a != b and not a == b and mem[k] not in b and out[0] in b, 'sets of %d equal where item %d differs', n, k)
        u = D.TypeSet(*mem[:k]) | D.TypeSet(*mem[k:])
        require(len(u) == n and set(u) == set(mem) and all(x in u for x in mem), 'the union of %d and %d is %s', k, n - k, u)
        u = a | D.TypeSet(mem[k])
        require(len(u) == n and set(u) == set(mem), 'a union with a member is %s', u)
        STAT.add('transitions', 4)
    for x in out:
        require(x not in a and not D.matches_typeset((x,), (a,)), '%s is in %s', x, a)
    require(a == D.TypeSet(*[mk(k) for k in range(n)]) and hash(a) == hash(D.TypeSet(*[mk(k) for k in range(n)])), 'a set of %d is not equal to itself', n)
    return kind


COUNT = itertools.count()


def run_names(case):
    """sets which are alike but for their name, or but for their order: equal when both agree"""
    o = objs()
    mem = [o[n] for n in case]
    first, second = 'mc%d' % next(COUNT), 'mc%d' % next(COUNT)
    plain, a, b = D.TypeSet(*mem), D.TypeSet(*mem, name=first), D.TypeSet(*mem, name=second)
    named = {'signed': TS.signed, 'boolean': TS.boolean, 'floating': TS.floating}
    for x, y in itertools.permutations((plain, a, b), 2):
        require(x != y and not x == y, 'sets of %s named %s and %s are equal', case, x.name, y.name)
        require(x.types == y.types and set(x) == set(y) and len(x) == len(y), 'the types of a set of %s depend on its name', case)
        require(len({x, y}) == 2 and {x: 1}.get(y) is None, 'sets of %s named %s and %s are one key', case, x.name, y.name)
    for x, n in ((a, first), (b, second)):
        require(x == x and not x != x and x.name == n and repr(x) == '{%s}' % n, 'the set of %s named %s is %r', case, n, x)
        require(TS.registry[n] is x and TS.lookup(n) is x, 'the set of %s named %s is registered as %r', case, n, TS.lookup(n))
        for other in (mem, mem[::-1], []):
            try:
                D.TypeSet(*other, name=n)
            except TypeError:
                pass
            else:
                require(False, 'two sets are named %s', n)
            require(TS.lookup(n) is x and list(x) == mem, 'the set named %s was replaced by %r', n, TS.lookup(n))
        u = x | plain
        require(u.name is None and set(u) == set(plain), 'a union with a named set is %r', u)
        for k, v in named.items():
            require(x != v and v != x, 'a set named %s equals %s', n, k)
            require((list(v) == mem) == (plain == D.TypeSet(*v)), 'the types of %s', k)
    for order in itertools.permutations(mem):
        y = D.TypeSet(*order)
        require((y == plain) == (list(order) == mem) and (y != plain) == (list(order) != mem), 'sets of %s and of %s', mem, order)
        require(set(y) == set(plain) and y.name is None, 'the set of %s', order)
    shown = repr(plain)
    at = [shown.index(repr(m)) for m in mem]
    require(at == sorted(at) and all(shown.count(repr(m)) == 1 for m in mem) and shown == repr(D.TypeSet(*mem)), 'the set of %s is shown as %s', case, shown)
    return '%d' % len(mem)


def spaces(tier):
    q = tier == 'quick'
    a, e1 = t.bfs(t.atoms() + [t.ds(('td', u)) for u in t.UNITS] + [t.ds(('dec', p, s)) for p in (1, 19, 38) for s in (0, 2)], t.contexts(), 1 if q else 2)
    fam = list(dict.fromkeys(a + family()))
    fam += [t.opt(x) for x in fam if not any(d[0] == 'E' for d in x[1])]
    some = list(range(0, 1 << 14, 75 if q else 17))
    few = ['int8', 'int64', 'uint32', 'float16', 'float64', 'complex[float32]', 'bool']
    sg = list(MEMBERS) + few[:3]
    sigs = [(x, s) for k in (1, 2) for x in itertools.product(few if k > 1 else NAMES, repeat=k) for s in itertools.product(sg, repeat=k)]
    sigs += [(x, s) for x in itertools.product(few[:4], repeat=3) for s in itertools.product(['signed', 'integral', 'real', 'scalar', 'floating', 'int8', 'int64'], repeat=3)]
    if not q:
        sigs += [(x, s) for x in itertools.product(few[:4], repeat=4) for s in itertools.product(['signed', 'integral', 'real', 'floating', 'int8'], repeat=4)]
    grown = scale.cases(tier)
    names = [n for k in range(4 if q else 5) for n in itertools.permutations(few[:5] if q else few, k)] + [tuple(MEMBERS[n]) for n in ('signed', 'floating', 'boolean')]
    longs = [(n, s) for n in range(1, 21 if q else 41) for s in ('types', 'sets')]
    bigs = [(k, n) for k in ('string', 'record', 'decimal', 'time zone') for n in scale.sizes(*((20, [31, 32, 33, 63, 64, 65]) if q else (70, scale.EDGES)))]
    return [
        Space('types', list(dict.fromkeys(fam)), run_type, len(fam), None, lambda x: ascii(t.text(x))),
        Space('named sets', list(MEMBERS), run_named, len(MEMBERS), 0),
        Space('subsets', list(range(1 << 14)), run_subset, 1 << 14, None, lambda i: str(subset(i))),
        Space('unions', list(itertools.product(some, repeat=2)), run_union, len(some), None, lambda c: '%s | %s' % (subset(c[0]), subset(c[1]))),
        Space('names', names, run_names, len(names), 0, repr),
        Space('growth', grown, run_grown, len(grown), None, scale.show),
        Space('long signatures', longs, run_long_sig, len(longs), 0, repr),
        Space('big sets', bigs, run_big_set, len(bigs), 0, repr),
        Space('signatures', sigs, run_sig, len(sigs), 0, repr),
    ]
