"""One process of C25: performs a battery in a given order and prints digests.

argv: mode order pickle-file
  mode   'plain'               as it is
         'import:I:P'          the I-th iteration over a set while importing datashape is permuted by P
         'use'                 every single iteration over a set is permuted, one at a time, in each operation
"""
import hashlib
import json
import os
import sys
import builtins

REPO = os.environ.get('VERIF_REPO', '/repo')


class Control(object):
    events = 0
    at = -1
    perm = 0


def permuted(items, p):
    items = sorted(items, key=lambda x: (type(x).__name__, str(x)))
    n = len(items)
    if p == 0 or n < 2:
        return items
    if p == 1:
        return items[::-1]
    k = (p - 1) % n
    return items[k:] + items[:k]


def controlled():
    """A set whose iteration order is chosen by Control, not by hashes"""
    real = builtins.set

    class set(real):
        def _order(self):
            items = list(real.__iter__(self))
            p = 0
            if len(items) > 1:
                if Control.events == Control.at:
                    p = Control.perm
                Control.events += 1
            return permuted(items, p)

        def __iter__(self):
            return iter(self._order())

        def pop(self):
            x = self._order()[0]
            self.remove(x)
            return x

        def __repr__(self):
            return '{%s}' % ', '.join(map(repr, self._order()))
        __str__ = __repr__

    def wrap(name):
        f = getattr(real, name)

        def g(self, *args):
            r = f(self, *args)
            return set(real.__iter__(r)) if isinstance(r, real) else r
        g.__name__ = name
        return g
    for name in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy', '__or__', '__and__', '__sub__', '__xor__',
                 '__ror__', '__rand__', '__rsub__', '__rxor__'):
        setattr(set, name, wrap(name))
    return set


def digest(x):
    return hashlib.sha1(repr(x).encode('utf-8', 'backslashreplace')).hexdigest()[:16]


def battery(big, fine=False):
    """list of (key, thunk); thunks are independent of each other"""
    import itertools
    from mc import ops, scale, terms as t, variants, values, grammar
    D, T, code = ops.D, ops.T, ops.code
    from datashape import typesets as TS, discovery
    out = []

    def add(key, f):
        out.append((key, f))
    w = [None]

    def fresh():
        w[0] = ops.world()
        return w[0]
    for n in ops.OPS:
        if not n.startswith('hash'):
            add('op ' + n, lambda n=n: ops.perform(n, fresh()))

    def safe(f):
        try:
            return code(f())
        except RecursionError:
            return 'too deep'
        except Exception as e:
            return code(e)
    fam = variants.family()
    for i, x in enumerate(fam):
        def f(x=x):
            ds = t.build(x)
            return [str(ds), repr(ds), D.pprint(ds, 20), repr(ds.measure), safe(lambda: T.to_numpy(ds)), safe(lambda: D.maxtype(ds.measure))]
        add('type %d' % i, f)
    scal = [t.build_measure(m) for m in [('ct', n) for n in t.CTYPES] + [('str', None, 'U8'), ('str', 5, 'A'), ('date',), ('dt', None), ('td', 'us')]]
    for i, a in enumerate(scal):
        add('promote %d' % i, lambda a=a: [[safe(lambda: D.promote(x, y)) for x, y in ((a, b), (T.Option(a), b), (a, T.Option(b)))] for b in scal])
    leaves = list(values.LEAVES)
    def shapes(x, y):
        return [[x, y], [y, x], (x, y), [(x, y), (y, x)], [{'k': x, 'j': y}, {'j': x, 'i': y}], {'z': x, 'a': [y, None]},
                [[x], [y, y]], [{'k': [x, y]}, {'k': [y]}]]
    for a in leaves:
        x = values.val(('v', a))
        vs = []
        for b in leaves:
            y = values.val(('v', b))
            vs += shapes(x, y)
            if big or b in leaves[:6]:
                for c in leaves:
                    z = values.val(('v', c))
                    vs += [[x, y, z], [(x, 1), (y, None), (z, 2.5)]]
        if fine:
            for i, v in enumerate(vs):
                add('discover %s %d' % (a, i), lambda v=v: safe(lambda: D.discover(v)))
        else:
            add('discover %s' % a, lambda vs=vs: [safe(lambda: D.discover(v)) for v in vs])
    toks = ['int32', 'var', 'T', '3', '...', '*', '?', '{', '}', 'a', ':', ',', '(', ')', '->', '[', ']', '"s"', 'string', 'map', '=', 'option', '"']
    for a in toks:
        def f(a=a):
            r = [safe(lambda: D.dshape(a))]
            for b in toks:
                r.append(safe(lambda: D.dshape(a + ' ' + b)))
                for c in toks:
                    r.append(safe(lambda: D.dshape(' '.join((a, b, c)))))
            return r
        add('read ' + a, f)
    names = [n for n in dir(TS) if isinstance(getattr(TS, n), TS.TypeSet)]
    for n in names:
        ts = getattr(TS, n)
        add('set ' + n, lambda ts=ts: [code(ts), repr(ts), list(map(str, ts)), code(ts | TS.boolean), repr(ts | TS.boolean), repr(TS.TypeSet(*ts))])
    for sub in itertools.combinations([T.int8, T.float32, T.string, T.bool_], 3):
        add('unnamed set %s' % (sub,), lambda sub=sub: [repr(TS.TypeSet(*sub)), str(TS.TypeSet(*sub)), list(map(str, TS.TypeSet(*sub)))])
    # --- many of everything
    for name in list(scale.GROW) + list(scale.DEEP):
        for n in (3, 9, 17) if not big else (3, 5, 9, 17, 33):
            def f(name=name, n=n):
                x = t.build(scale.term((name, n, None)))
                y = t.build(scale.term((name, n, n - 1)))
                return [str(x), repr(x), D.pprint(x, 30), safe(lambda: D.dshape(str(x))), x == y, safe(lambda: T.to_numpy(x)), safe(lambda: x.measure.names),
                        safe(lambda: D.isfixed(x)), safe(lambda: D.ishomogeneous(x)), safe(lambda: D.promote(x.measure, y.measure)),
                        safe(lambda: ops.testing.assert_dshape_equal(x, y)), safe(lambda: ops.testing.assert_dshape_equal(x, y, check_record_order=False, check_dim=False)),
                        list(map(code, ops.U.collect(lambda z: isinstance(z, (T.CType, T.Var)), x)))]
            add('grown %s %d' % (name, n), f)
    for n in (2, 3, 5, 9, 17, 40):
        keys = ['k%d' % (i * 7 % n if n % 7 else i) for i in range(n)]
        vals = [1, 2.5, 'x', None, True, '2000-01-01', [1, 2], {'p': 1, 'q': 'y'}]
        for kind in range(5):
            def f(n=n, keys=keys, kind=kind):
                d = dict((k, vals[i % len(vals)]) for i, k in enumerate(keys))
                v = {0: d, 1: [d, d], 2: [d, {}], 3: [dict((k, i + j) for i, k in enumerate(keys[j:] + keys[:j]) if (i + j) % 3) for j in range(4)],
                     4: [{k: 1} for k in keys]}[kind]
                return [safe(lambda: D.discover(v)), safe(lambda: D.validate('{%s}' % ', '.join('%s: int' % k for k in sorted(keys)), v))]
            add('dicts %d %d' % (n, kind), f)
        add('sets %d' % n, lambda n=n: [safe(lambda: D.discover(set(range(n)))), safe(lambda: D.discover(frozenset('w%d' % i for i in range(n)))),
                                        safe(lambda: D.discover(set((i, 'w%d' % i) for i in range(n)))), safe(lambda: D.discover([set(['a%d' % i, 'b']) for i in range(n)]))])
    # --- keys that are alike
    alike = [['Aa', 'aa', 'aA', 'AA'], ['a', 'a ', ' a', ' a '], ['1', '01', '1.0', '+1'], [u'\xe9', u'e\u0301', u'\xc9', 'e'], ['ab', 'ba', 'cd', 'dc'], ['a_b', 'a-b', 'ab', 'a b'],
             ['k1', 'k10', 'k2', 'k01'], [1, 2.5, -1, -2], ['x' * n for n in (1, 2, 3, 4)], ['ss', u'\xdf', 'SS', 'sS'], [(1, 'a'), (1, 'A'), (0, 'a'), (2, 'A')]]
    for i, ks in enumerate(alike):
        def f(ks=ks):
            ts = [T.int32, T.string, T.float64, T.bool_]
            r = []
            for p in itertools.permutations(range(4)):
                d = dict((ks[j], [1, 'x', 2.5, None][j]) for j in p)
                e = dict((ks[j], j) for j in p[:2])
                a, b = T.Record([(ks[j], ts[j]) for j in p]), T.Record(list(zip(ks, ts)))
                r += [safe(lambda: D.discover(v)) for v in (d, [d], [d, e], [e, d], [d, None], {'k': d})]
                r += [safe(lambda: ops.testing.assert_dshape_equal(a, b)), safe(lambda: ops.testing.assert_dshape_equal(a, b, check_record_order=False)), str(a), a == b,
                      safe(lambda: D.validate(D.dshape(a), d)), safe(lambda: T.to_numpy(a)), safe(lambda: TS.TypeSet(*[ts[j] for j in p])), safe(lambda: T.Categorical(frozenset(ks[:1])))]
            return r
        add('alike %d' % i, f)
    # --- ways of failing
    from datashape import user
    dups = ['abab', 'abcabc', 'bacbca', 'aabbccdd', 'abcabcabcxyzxyz', 'xyzwxyzw', ['alpha', 'beta', 'gamma', 'beta', 'alpha'], ['k%d' % (i % 7) for i in range(20)],
            ['f', 'g', 'h', 'f'], list('abcdefghij') + list('jihgf')]
    for i, ns in enumerate(dups):
        def f(ns=ns):
            text = ', '.join('%s: int32' % n for n in ns)
            return [safe(lambda: T.Record([(n, T.int32) for n in ns])), safe(lambda: D.dshape('{%s}' % text)), safe(lambda: D.dshape('3 * {x: {%s}}' % text)),
                    safe(lambda: T.Record[[(n, 'int32') for n in ns]]), safe(lambda: T.Record([(n, n) for n in ns])),
                    safe(lambda: T.R['x':'int32', ns[0]:'int8', ns[1]:'int8', ns[0]:'int64', ns[1]:'int32']),
                    safe(lambda: D.dshape('struct[[%s], [%s]]' % (', '.join(map(repr, ns)), ', '.join('int32' for n in ns)))),
                    safe(lambda: D.dshape('struct[[%s], [int8]]' % ', '.join(map(repr, ns)))),
                    safe(lambda: D.dshape('categorical[[%s]]' % ', '.join(map(repr, ns)))),
                    safe(lambda: D.discover([{n: j for j, n in enumerate(ns[:k])} for k in range(1, len(ns) + 1)])),
                    safe(lambda: D.discover(set(ns))), safe(lambda: D.discover([set(ns), [1]]))]
        add('duplicates %d' % i, f)
    kinds = [T.int32, T.Record([('a', T.int32)]), T.Tuple([T.int8, T.string]), T.Option(T.string), T.Date(), T.DateTime(), T.TypeVar('T'), T.Ellipsis(), T.Var(), T.Fixed(3),
             T.Function(T.int8, T.int8), T.Categorical(['a', 'b']), T.JSON(), T.Null(), T.bytes_, 3, 'x', None, [1, 2], {'a': 1}, 2.5, {'p'}]
    for i, a in enumerate(kinds):
        def f(a=a):
            r = []
            for b in kinds:
                r += [safe(lambda: T.DataShape(a, b)), safe(lambda: T.Option(a)), safe(lambda: T.Tuple([a, b])), safe(lambda: T.Record([('x', a), ('y', b)])), safe(lambda: a * b),
                      safe(lambda: T.Map(a, b)), safe(lambda: T.Function(a, b)), safe(lambda: D.dshape(a)), safe(lambda: D.cat_dshapes([a, b])), safe(lambda: D.promote(a, b)),
                      safe(lambda: T.Units(a, b)), safe(lambda: T.Categorical([a, b])), safe(lambda: T.String(a, b)), safe(lambda: T.Fixed(a)), safe(lambda: T.TypeVar(a)),
                      safe(lambda: T.TimeDelta(a)), safe(lambda: T.Decimal(a, b)), safe(lambda: T.Time(a)), safe(lambda: TS.TypeSet(a, b)), safe(lambda: T.to_numpy_dtype(a)),
                      safe(lambda: T.CType(a, b)), safe(lambda: D.validate(a, b)), safe(lambda: user.issubschema(a, b)), safe(lambda: ops.testing.assert_dshape_equal(a, b))]
            return r
        add('failing %d' % i, f)
    return out, fam, t


def main():
    mode, order, path, big = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4] == 'big'
    shard, nsh = (int(x) for x in mode.split(':')[1:]) if mode.startswith('use') else (0, 1)
    # everything that is not under test is imported with plain sets
    import numpy, multipledispatch, dateutil.parser, pickle, copy, ctypes, unittest.mock, textwrap, warnings, re, itertools, collections, datetime
    if mode != 'plain':
        cls = controlled()
        if mode.startswith('import:'):
            Control.at, Control.perm = map(int, mode.split(':')[1:])
        builtins.set = cls
    import datashape
    from datashape.util import testing
    if not os.path.abspath(datashape.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('wrong datashape ' + datashape.__file__)
    imports = Control.events
    Control.at = -1
    out, fam, t = battery(big, mode.startswith('use'))
    out = out[shard::nsh]
    if order == 'backward':
        out = out[::-1]
    elif order == 'interleaved':
        out = out[::3] + out[1::3] + out[2::3]
    res, bad, runs = {}, [], 0
    for key, f in out:
        Control.events, Control.at = 0, -1
        v = f()
        runs += 1
        res[key] = digest(v)
        if mode.startswith('use'):
            n = Control.events
            for at in range(n):
                for p in (1, 2, 3):
                    Control.events, Control.at, Control.perm = 0, at, p
                    r = f()
                    runs += 1
                    if digest(r) != res[key]:
                        bad.append('%s: the order in which a set is iterated over (%d of %d) changes the result' % (key, at, n))
            Control.at = -1
    # pickles cross processes
    if path != '-':
        if not os.path.exists(path):
            objs = [t.build(x) for x in fam]
            for o in objs:
                hash(o)
                str(o)
            data = pickle.dumps(objs, 2)
            with open(path + '.tmp', 'wb') as h:
                h.write(data)
            os.rename(path + '.tmp', path)
        else:
            with open(path, 'rb') as h:
                objs = pickle.load(h)
            for x, o in zip(fam, objs):
                here = t.build(x)
                if not (o == here and here == o and hash(o) == hash(here) and {here: 1}.get(o) == 1 and str(o) == str(here) and t.observe(o) == t.observe(here)):
                    bad.append('the pickle of %s from another process is %r, not equal to it here' % (here, o))
            res['pickled'] = 'loaded'
    json.dump({'res': res, 'bad': bad[:5], 'imports': imports, 'runs': runs}, sys.stdout)


if __name__ == '__main__':
    main()
