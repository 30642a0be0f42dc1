"""C07  types survive pickling, copying and reconstruction unchanged"""
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile
from .. import terms as t
from .. import scale
from ..variants import family
from .. import pickled
from ..core import Space, require, STAT, ROOT, REPO

D, T = t.D, t.T
PROPERTY = 'C07'
TECHNIQUE = ('bounded exhaustive exploration of operation histories: every sequence of copying operations up to a '
             'length on every type term, with the term model as invariant after every step')
NOTE = ('Exhaustive over the stated terms and histories. Reconstruction from parameters leaves out the native types, '
        'which exist once under their registered name, and named datashapes.')
BOUNDS = {'quick': 'single operations on depth 2 and all variants; sequences of 2 on depth 1; of 3 on small atoms; pairs of every sixth variant; every type of depth 1 through 3 chains of processes',
          'thorough': 'single operations on depth 3; sequences of 2 on depth 2; of 4 on small atoms; every type of depth 1 through 24 chains of processes'}


def rebuild(o):
    if isinstance(o, T.CType):
        return o
    return type(o)(*o.parameters)


def rebuild_deep(o):
    if isinstance(o, T.CType):
        return o
    if isinstance(o, T.DataShape):
        return T.DataShape(*[rebuild_deep(p) for p in o.parameters])
    return type(o)(*o.parameters)


def shared(o):
    a, b, c = pickle.loads(pickle.dumps([o, o.measure, o], 2))
    require(a is c, 'sharing is lost')
    require(a.measure == b and b == a.measure, 'parts of a pickled list differ')
    return a


def in_dict(o):
    d = pickle.loads(pickle.dumps({o: [o.measure]}, 4))
    (k, (m,)), = d.items()
    require(m == k.measure and d[o] == [o.measure], 'types pickled as keys are not found')
    return k


OPS = [('pickle%d' % p, lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)]
OPS += [('copy', copy.copy), ('deepcopy', copy.deepcopy), ('rebuild', rebuild), ('rebuild deep', rebuild_deep),
        ('shared', shared), ('in dict', in_dict)]
BOTH = dict(OPS)


def check(o, term, h, s, r, what):
    require(t.strict_eq(t.observe(o), term), '%s: became %s', what, ascii(t.observe(o)))
    require(hash(o) == h, '%s: hash changed', what)
    require(str(o) == s and repr(o) == r, '%s: prints %s', what, ascii(str(o)))


def histories(n):
    names = [x for x, _ in OPS]

    def run(term):
        cnt = 0
        for bare in (False, True):
            if bare and term[1]:
                continue
            o0 = t.build_measure(term[2]) if bare else t.build(term)
            s, r, h = str(o0), repr(o0), hash(o0)
            for seq in itertools.product(names, repeat=n):
                # a fresh object, so that nothing is cached in it yet
                o = first = t.build_measure(term[2]) if bare else t.build(term)
                for op in seq:
                    o2 = BOTH[op](o)
                    what = '%s%s by %s' % (ascii(t.text(term)), ' (bare)' if bare else '', seq)
                    require(type(o2) is type(o), '%s: gives a %s', what, type(o2))
                    if op == 'shared' or op == 'in dict':
                        pass
                    check(o2, term, h, s, r, what)
                    require(o2 == o and o == o2 and not o2 != o, '%s: no longer equal', what)
                    check(o, term, h, s, r, what + ', original')
                    o = o2
                    cnt += 1
                check(first, term, h, s, r, '%s by %s, first' % (ascii(t.text(term)), seq))
        STAT.add('states', 1)
        STAT.add('transitions', cnt)
        STAT.add('traces', cnt)
        return term[2][0]
    return run


def pickle_groups(terms):
    """several types sharing parts pickled together, in pairs"""
    def run(i):
        a = t.build(terms[i])
        n = 0
        for j, y in enumerate(terms):
            b = t.build(y)
            rec = T.Record([('p', a), ('q', b), ('r', a)])
            for p in (0, 2, 5):
                x, z, rr = pickle.loads(pickle.dumps((a, b, rec), p))
                require(x == a and z == b and rr == rec, '%s and %s pickled together', ascii(t.text(terms[i])), ascii(t.text(y)))
                require(t.strict_eq(t.observe(rr), t.rec(('p', terms[i]), ('q', y), ('r', terms[i]))), 'record of %s and %s',
                        ascii(t.text(terms[i])), ascii(t.text(y)))
                n += 1
        STAT.add('states', 1)
        STAT.add('transitions', n)
        STAT.add('traces', n)
        return 'ok'
    return Space('pickled together', list(range(len(terms))), run, None, None, lambda i: ascii(t.text(terms[i])))


def process(seed, src, dst):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=REPO + os.pathsep + ROOT)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.pickled', src, dst], env=env, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    require(p.returncode == 0, 'reading pickles with hash seed %s fails: %s', seed, p.stderr.decode('utf-8', 'replace')[-2000:])
    r = json.loads(p.stdout.decode())
    require(not r['bad'], 'in a process with hash seed %s: the pickle of %s', seed, r['bad'][:1])
    STAT.add('states', r['n'])
    STAT.add('transitions', r['n'])
    STAT.add('traces', r['n'])


def other_processes(terms, seeds, shards=8):
    """pickles are read by processes with other hash seeds, and from there by others"""
    def run(case):
        i, chain = case
        base = os.path.join(os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir(), 'c07-%d-%d-%s' % (os.getpid(), i, '-'.join(map(str, chain))))
        items = []
        for x in terms[i::shards]:
            for bare in (False,) if x[1] else (False, True):
                for how in ('new', 'used'):
                    o = pickled.made(x, bare)
                    if how == 'used':
                        pickled.used(o)
                    for p in range(pickle.HIGHEST_PROTOCOL + 1):
                        items.append((x, bare, '%s, pickled by %d' % (how, p), pickled.pickles(o, p)))
        files = ['%s.%d' % (base, k) for k in range(len(chain))] + ['-']
        try:
            with open(files[0], 'wb') as h:
                pickle.dump(items, h)
            for seed, src, dst in zip(chain, files, files[1:]):
                process(seed, src, dst)
        finally:
            for f in files[:-1]:
                if os.path.exists(f):
                    os.unlink(f)
        return '%d processes' % len(chain)
    return Space('other processes', [(i, c) for c in seeds for i in range(shards)], run, None, None, repr)


DIMS = [D.Fixed(0), D.Fixed(3), D.Fixed(10 ** 20), D.Var(), D.TypeVar('N'), T.Ellipsis(), T.Ellipsis(D.TypeVar('A'))]


def run_dim(i):
    d = DIMS[i]
    for name, f in OPS:
        if name in ('rebuild deep', 'in dict', 'shared'):
            continue
        e = f(d)
        require(type(e) is type(d) and e == d and d == e and hash(e) == hash(d) and str(e) == str(d),
                'dimension %r by %s gives %r', d, name, e)
        require(t.obs_dim(e) == t.obs_dim(d), 'dimension %r by %s gives %r', d, name, e)
    return 'ok'


def spaces(tier):
    q = tier == 'quick'
    fam = family()
    d1, e1 = t.bfs(t.atoms(), t.contexts(), 1)
    d2, e2 = t.bfs(t.atoms(), t.contexts(), 2 if q else 3)
    show = lambda x: ascii(t.text(x))
    tri = t.small_atoms()
    return [
        Space('dimensions', list(range(len(DIMS))), run_dim, len(DIMS), 0, lambda i: repr(DIMS[i])),
        Space('variants', fam, histories(1), None, None, show),
        Space('nesting', d2, histories(1), None, None, show),
        Space('histories of 2', d1 if q else t.bfs(t.small_atoms(), t.contexts(), 2)[0], histories(2), None, None, show),
        Space('histories of %d' % (3 if q else 4), tri, histories(3 if q else 4), None, None, show),
        Space('growth', [c for c in scale.cases(tier) if c[2] in (None, c[1] - 1)], lambda c: histories(1)(scale.term(c)), None, None, scale.show),
        other_processes(list(dict.fromkeys(fam + d1)), [(0,), (1, 2), (3, 0)] if q else [(s,) for s in range(8)] + [(a, b) for a in range(4) for b in range(4)], 8),
        pickle_groups(fam[::6] if q else fam),
    ]
