"""C23  symbol tables and registries are isolated and protected"""
import itertools
from .. import terms as t
from .. import ops
from ..ops import D, T, code
from ..core import Space, require, STAT
from .c21 import in_child
from datashape import parser, typesets as TS
from datashape import type_symbol_table as tst
from datashape.error import DataShapeSyntaxError

PROPERTY = 'C23'
TECHNIQUE = ('explicit-state exploration of a model of the tables (finite maps) against the real ones: every operation sequence up to a '
             'length is run on both and every lookup is compared after it; registry histories run in forked processes')
NOTE = ('Exhaustive over the alphabets and lengths. Defining a Python class also names it in the type registry and may replace a name; '
        'that is not covered by the property.')
BOUNDS = {'quick': 'table sequences of 3 of 34 operations; every symbol of the default table removed and replaced; every taken name with 30 types; registry histories of 3 of 28 operations',
          'thorough': 'table sequences of 4 of 34 operations; registry histories of 4 of 23 operations'}

SECTIONS = ('dtype', 'dtype_constr', 'dim', 'dim_constr')
A, B = T.date_, T.Decimal(3, 1)
CA, CB = (lambda *a: T.Decimal(11, 1)), (lambda *a: T.Decimal(12, 1))
DA, DB = T.Var(), T.Fixed(77)
KA, KB = (lambda n: T.Fixed(1000 + len(str(n)))), (lambda n: T.Fixed(2000 + len(str(n))))
VALUES = {'dtype': (A, B), 'dtype_constr': (CA, CB), 'dim': (DA, DB), 'dim_constr': (KA, KB)}

# text, symbols it needs, function from the symbols' values to the prescribed meaning
DS = T.DataShape
PROBES = [
    ('int32', ('dtype', 'int32'), lambda g: DS(g('dtype', 'int32'))),
    ('foo', ('dtype', 'foo'), lambda g: DS(g('dtype', 'foo'))),
    ('foo[1]', ('dtype_constr', 'foo'), lambda g: DS(g('dtype_constr', 'foo')(1))),
    ('foo * int32', ('dim', 'foo', 'dtype', 'int32'), lambda g: DS(g('dim', 'foo'), g('dtype', 'int32'))),
    ('3 * int32', ('dim_constr', 'fixed', 'dtype', 'int32'), lambda g: DS(g('dim_constr', 'fixed')(3), g('dtype', 'int32'))),
    ('M * int32', ('dim_constr', 'typevar', 'dtype', 'int32'), lambda g: DS(g('dim_constr', 'typevar')('M'), g('dtype', 'int32'))),
    ('M... * int32', ('dim_constr', 'ellipsis', 'dtype', 'int32'), lambda g: DS(g('dim_constr', 'ellipsis')('M'), g('dtype', 'int32'))),
    ('... * int32', ('dim', 'ellipsis', 'dtype', 'int32'), lambda g: DS(g('dim', 'ellipsis'), g('dtype', 'int32'))),
    ('var * int32', ('dim', 'var', 'dtype', 'int32'), lambda g: DS(g('dim', 'var'), g('dtype', 'int32'))),
    ('T', ('dtype_constr', 'typevar'), lambda g: DS(g('dtype_constr', 'typevar')('T'))),
    ('?int32', ('dtype_constr', 'option', 'dtype', 'int32'), lambda g: DS(g('dtype_constr', 'option')(DS(g('dtype', 'int32'))))),
    ('{a: int32}', ('dtype_constr', 'struct', 'dtype', 'int32'), lambda g: DS(g('dtype_constr', 'struct')(['a'], [DS(g('dtype', 'int32'))]))),
    ('{}', ('dtype_constr', 'struct'), lambda g: DS(g('dtype_constr', 'struct')([], []))),
    ('(int32)', ('dtype_constr', 'tuple', 'dtype', 'int32'), lambda g: DS(g('dtype_constr', 'tuple')([DS(g('dtype', 'int32'))]))),
    ('() -> int32', ('dtype_constr', 'funcproto', 'dtype', 'int32'), lambda g: DS(g('dtype_constr', 'funcproto')([], DS(g('dtype', 'int32'))))),
    ('string', ('dtype', 'string'), lambda g: DS(g('dtype', 'string'))),
    ('string[3]', ('dtype_constr', 'string'), lambda g: DS(g('dtype_constr', 'string')(3))),
    ('option[int32]', ('dtype_constr', 'option', 'dtype', 'int32'), lambda g: DS(g('dtype_constr', 'option')(DS(g('dtype', 'int32'))))),
    ('complex[float64]', ('dtype_constr', 'complex', 'dtype', 'float64'), lambda g: DS(g('dtype_constr', 'complex')(DS(g('dtype', 'float64'))))),
]
REFUSED = (SyntaxError, TypeError, ValueError, NotImplementedError)


class Missing(Exception):
    pass


def check_table(sym, model, what, read=parser.parse):
    """every probe text means what the model says"""
    for s in SECTIONS:
        d = getattr(sym, s)
        require(set(d) == set(model[s]) and all(d[k] is model[s][k] for k in d), '%s: section %s has %s', what, s,
                sorted(k for k in set(d) | set(model[s]) if d.get(k) is not model[s].get(k)))

    def g(sec, name):
        if name not in model[sec]:
            raise Missing()
        return model[sec][name]
    for text, needs, f in PROBES:
        try:
            want = code(f(g))
        except Missing:
            want = 'refused'
        except REFUSED:
            want = None
        try:
            got = code(read(text, sym))
        except DataShapeSyntaxError:
            got = 'refused'
        except REFUSED:
            got = None
        require(got == want, '%s: %r reads as %r instead of %r', what, text, got, want)
        STAT.add('transitions')


DEFAULT = {s: dict(getattr(tst.sym, s)) for s in SECTIONS}
EMPTY = {s: {} for s in SECTIONS}


def copy_model(m):
    return {s: dict(m[s]) for s in SECTIONS}


def table_ops():
    out = []
    for tab in ('full', 'bare'):
        for sec in SECTIONS:
            for i in (0, 1):
                out.append(('put', tab, sec, 'foo', i))
        for sec, name in (('dtype', 'int32'), ('dtype_constr', 'option'), ('dim', 'ellipsis'), ('dim_constr', 'fixed')):
            out.append(('put', tab, sec, name, 0))
        out.append(('del', tab, 'dtype', 'foo', 0))
        out.append(('del', tab, 'dtype', 'int32', 0))
        out.append(('fill', tab, None, None, 0))
        out.append(('new', tab, None, None, 0))
    out.append(('read', 'full', None, None, 0))
    out.append(('copy sections', 'bare', None, None, 0))
    return out


def apply_table(op, tabs, models):
    kind, tab, sec, name, i = op
    sym, m = tabs[tab], models[tab]
    if kind == 'put':
        getattr(sym, sec)[name] = VALUES[sec][i]
        m[sec][name] = VALUES[sec][i]
    elif kind == 'del':
        getattr(sym, sec).pop(name, None)
        m[sec].pop(name, None)
    elif kind == 'fill':
        sym.add_default_types()
        for s in SECTIONS:
            m[s].update(DEFAULT[s])
    elif kind == 'new':
        tabs[tab] = tst.TypeSymbolTable(bare=tab == 'bare')
        models[tab] = copy_model(EMPTY if tab == 'bare' else DEFAULT)
    elif kind == 'read':
        for text, _, _ in PROBES:
            try:
                parser.parse(text, sym)
            except REFUSED:
                pass
    else:
        for s in SECTIONS:
            getattr(sym, s).update(getattr(tabs['full'], s))
            m[s].update(models['full'][s])


def run_tables(seq):
    tabs = {'full': tst.TypeSymbolTable(), 'bare': tst.TypeSymbolTable(bare=True)}
    models = {'full': copy_model(DEFAULT), 'bare': copy_model(EMPTY)}
    for op in seq:
        apply_table(op, tabs, models)
        STAT.add('transitions')
    for tab in tabs:
        check_table(tabs[tab], models[tab], 'the %s table' % tab)
    check_table(tst.sym, DEFAULT, 'the default table')
    for s, want in (('foo', None), ('foo * int32', None), ('foo[1]', None), ('3 * int32', DS(3, T.int32)), ('?int32', DS(T.Option(T.int32)))):
        try:
            got = D.dshape(s)
        except DataShapeSyntaxError:
            got = None
        require(code(got) == code(want), 'dshape(%r) is %s', s, got)
    STAT.add('states')
    return 'model agrees'


def tables(n):
    O = table_ops()

    def cases(shard, nsh):
        k = 0
        for m in range(1, n + 1):
            for seq in itertools.product(O, repeat=m):
                if k % nsh == shard:
                    yield seq
                k += 1
    return Space('table sequences <=%d' % n, cases, run_tables, rule='every sequence of operations on a full and a bare table, checked against finite maps')


def default_ops():
    """on the table that dshape() uses"""
    out = []
    for sec in SECTIONS:
        out += [('put', 'full', sec, 'foo', 0), ('put', 'full', sec, 'foo', 1), ('del', 'full', sec, 'foo', 0)]
    for sec, name in (('dtype', 'int32'), ('dtype_constr', 'option'), ('dim', 'ellipsis'), ('dim_constr', 'fixed')):
        out += [('put', 'full', sec, name, 0), ('del', 'full', sec, name, 0)]
    return out + [('fill', 'full', None, None, 0), ('read', 'full', None, None, 0)]


def default_history(seq):
    from ..core import Violation
    tabs, models = {'full': tst.sym}, {'full': copy_model(DEFAULT)}
    try:
        for op in seq:
            apply_table(op, tabs, models)
            check_table(tst.sym, models['full'], 'the default table', lambda text, sym: D.dshape(text))
            check_table(tst.sym, models['full'], 'the default table', lambda text, sym: D.dshapes(text, text)[1])
        check_table(tst.TypeSymbolTable(), DEFAULT, 'a new table')
    except Violation as e:
        return str(e)


def run_default(seq):
    r = in_child(lambda: default_history(seq))
    require(not r, 'after %s: %s', [x for x in seq], r)
    STAT.add('states')
    STAT.add('transitions', len(seq))
    return 'model agrees'


def run_symbol(case):
    """one symbol of the default table removed, replaced, or the only one there"""
    sec, name, how = case
    sym = tst.TypeSymbolTable(bare=how == 'only')
    m = copy_model(EMPTY if how == 'only' else DEFAULT)
    if how == 'removed':
        del getattr(sym, sec)[name]
        del m[sec][name]
    else:
        v = VALUES[sec][0] if how == 'replaced' else DEFAULT[sec][name]
        getattr(sym, sec)[name] = v
        m[sec][name] = v
    check_table(sym, m, '%s %s %s' % (sec, name, how))
    # reading the name itself
    if sec in ('dtype', 'dim'):
        text = name if sec == 'dtype' else name + ' * (() -> int32)'
        try:
            got = parser.parse(text, sym)
        except DataShapeSyntaxError:
            got = None
        if sec == 'dtype':
            want = DS(m[sec][name]) if name in m[sec] else None
            require(code(got) == code(want), '%r with %s %s reads as %s', text, name, how, got)
        elif name in m[sec] and how != 'only':
            require(got is not None and got.shape[0] is m[sec][name], '%r reads as %s', text, got)
        else:
            require(got is None, '%r with %s %s reads as %s', text, name, how, got)
    check_table(tst.sym, DEFAULT, 'the default table')
    STAT.add('states')
    return how


# ---------------------------------------------------------------- registries
REG = {k: code(v) for k, v in ops.registered().items()}
SETS = {k: code(v) for k, v in ops.registered_sets().items()}
OWN = TS.TypesetRegistry()


def _reg(name, mk):
    def f(m):
        if name in m['types']:
            want = 'refused'
        else:
            want = 'ok'
        try:
            v = mk()
            T.Type.register(name, v)
            got = 'ok'
            m['types'][name] = code(v)
        except TypeError:
            got = 'refused'
        require(got == want, 'registering %s is %s', name, got)
    return f


def _ctype(name, size):
    def f(m):
        want = 'refused' if name in m['types'] else 'ok'
        try:
            v = T.CType(name, size, size)
            got = 'ok'
            m['types'][name] = code(v)
        except TypeError:
            got = 'refused'
        require(got == want, 'defining the native type %s is %s', name, got)
    return f


def _named(name, mk):
    def f(m):
        old = ops.registered([name]).get(name)
        plain = mk(None)
        want = 'ok' if old is None or old == plain else 'refused'
        try:
            v = mk(name)
            got = 'ok'
        except TypeError:
            got = 'refused'
        require(got == want, 'naming %s %s is %s', plain, name, got)
        if got == 'ok':
            require(v == plain and hash(v) == hash(plain) and str(v) == name and v.name == name, 'the datashape named %s is %r', name, v)
            if name not in m['types']:
                m['types'][name] = code(v)
    return f


def _tset(name, *ts):
    def f(m):
        want = 'refused' if name in m['sets'] else 'ok'
        try:
            v = TS.TypeSet(*ts, name=name)
            got = 'ok'
            m['sets'][name] = code(v)
        except TypeError:
            got = 'refused'
        require(got == want, 'defining the type set %s is %s', name, got)
    return f


def _own(name, *ts):
    def f(m):
        want = 'refused' if name in m['own'] else 'ok'
        try:
            v = TS.TypeSet(*ts)
            r = OWN.register_typeset(name, v)
            got = 'ok'
            require(r is v, 'register_typeset returns %r', r)
            m['own'][name] = code(v)
        except TypeError:
            got = 'refused'
        require(got == want, 'registering the type set %s in another registry is %s', name, got)
    return f


def _looks(names):
    def f(m):
        pass
    return f


ROPS = []
for _n in ('foo', 'bar', 'int32'):
    ROPS += [('register %s int8' % _n, _reg(_n, lambda: T.int8)), ('register %s record' % _n, _reg(_n, lambda: T.Record([('a', T.int32)]))),
             ('name %s 3 * int32' % _n, _named(_n, lambda name: DS(3, T.int32, name=name))), ('name %s int32' % _n, _named(_n, lambda name: DS(T.int32, name=name))),
             ('ctype %s' % _n, _ctype(_n, 3))]
for _n in ('foo', 'real'):
    ROPS += [('set %s' % _n, _tset(_n, T.int8, T.string)), ('set %s other' % _n, _tset(_n, T.int16)),
             ('own %s' % _n, _own(_n, T.int8)), ('own %s other' % _n, _own(_n, T.int16, T.int8))]
for _n in ('foo', 'real'):
    ROPS += [('set %s empty' % _n, _tset(_n)), ('own %s empty' % _n, _own(_n))]
ROPS += [('unnamed', lambda m: [T.DataShape(3, T.int32), TS.TypeSet(T.int8)])]

RALL = list(range(len(ROPS)))
RFEW = [i for i in RALL if 'bar' not in ROPS[i][0]]


def check_registries(m):
    got = {k: code(v) for k, v in ops.registered(m['types']).items()}
    # classes are named in the same registry; none of the operations defines one
    require(got == m['types'], 'the type registry differs at %s', sorted(k for k in set(got) | set(m['types']) if got.get(k) != m['types'].get(k)))
    for k in list(m['types']) + ['nope']:
        try:
            v = code(T.Type.lookup_type(k))
        except KeyError:
            v = None
        require(v == m['types'].get(k), 'looking up the type %s gives %s', k, v)
    for reg, mm, what in ((TS.registry, m['sets'], 'global'), (OWN, m['own'], 'other')):
        for k in list(m['sets']) + list(m['own']) + ['nope']:
            v = reg.lookup(k)
            require((v is None) == (k not in mm) and (v is None or code(v) == mm[k]), 'looking up the type set %s in the %s registry gives %s', k, what, v)
            try:
                v = reg[k]
            except KeyError:
                v = None
            require((v is None) == (k not in mm) and (v is None or code(v) == mm[k]), 'indexing the %s registry at %s gives %s', what, k, v)
    check_table(tst.sym, DEFAULT, 'the default table')
    require(all(getattr(T, n) is v for n, v in CONST.items()), 'a named type changed')
    for n in ('foo', 'bar'):
        try:
            D.dshape(n)
        except DataShapeSyntaxError:
            continue
        require(False, 'registering made %s readable', n)
    require(code(D.dshape('int32')) == code(DS(T.int32)) and code(D.dshape('real')) == code(DS(T.float64)), 'reading changed')


CONST = {n: getattr(T, n) for n in ('int8', 'int32', 'float64', 'string', 'bool_', 'null', 'date_')}


def history(seq):
    m = {'types': dict(REG), 'sets': dict(SETS), 'own': {}}
    from ..core import Violation
    try:
        for i in seq:
            ROPS[i][1](m)
        check_registries(m)
    except Violation as e:
        return str(e)
    except Exception as e:
        import traceback
        return 'unexpected ' + traceback.format_exc()


def run_history(seq):
    r = in_child(lambda: history(seq))
    require(not r, 'after %s: %s', [ROPS[i][0] for i in seq], r)
    STAT.add('states')
    STAT.add('transitions', len(seq))
    return 'model agrees'


def clobber(name):
    """every kind of type under one taken name; -> None or what went wrong"""
    from ..core import Violation
    m = {'types': dict(REG), 'sets': dict(SETS), 'own': {}}
    kinds = [('ct', 'int8'), ('str', None, 'U8'), ('str', 4, 'A'), ('bytes',), ('date',), ('time', 'UTC'), ('dt', None), ('td', 'us'), ('dec', 3, 1), ('null',), ('json',),
             ('tv', 'T'), ('units', 'kg', t.F64), ('cat', ('a', 'b'), t.STR[2], False), ('opt', t.I32), ('rec', ()), ('rec', (('a', t.I32),)), ('tup', ()), ('tup', (t.I32,)),
             ('fn', (), t.I32), ('map', t.STR, t.I32)]
    things = [t.build_measure(k) for k in kinds] + [t.build_dim(d) for d in t.DIMS] + [DS(T.int8), DS(3, T.int8), t.build(t.arr(t.I32, t.V, t.F3))]
    try:
        for v in things:
            if name in m['types']:
                for f in (lambda: T.Type.register(name, v), lambda: T.Type.register(str(name), v)):
                    try:
                        f()
                    except TypeError:
                        continue
                    require(False, 'registering %r as %s is accepted', v, name)
                shape = v if isinstance(v, DS) else None
                if shape is None and not isinstance(v, (T.Var, T.Fixed, T.Ellipsis)) and v != ops.registered([name])[name]:
                    shape = v
                if shape is not None and ops.registered([name])[name] != DS(shape):
                    try:
                        r = DS(*shape, name=name) if isinstance(shape, DS) else DS(shape, name=name)
                    except TypeError:
                        pass
                    else:
                        require(False, 'naming %s %s is accepted: %r', shape, name, r)
                for size in (1, 8):
                    try:
                        r = T.CType(name, size, size)
                    except TypeError:
                        continue
                    require(False, 'defining a native type %s is accepted: %r', name, r)
            require(code(ops.registered([name]).get(name)) == code(ops.registered([name]).get(name)), 'lookup')
            STAT.add('transitions')
        for ts in ((), (T.int8,), (T.int8, T.string), (DS(T.int8),), tuple(t.build_measure(('ct', n)) for n in t.CTYPES)):
            if name in m['sets']:
                for f in (lambda: TS.TypeSet(*ts, name=name), lambda: TS.registry.register_typeset(name, TS.TypeSet(*ts)), lambda: TS.register_typeset(name, TS.TypeSet(*ts))
                          if hasattr(TS, 'register_typeset') else TS.TypeSet(*ts, name=name)):
                    try:
                        r = f()
                    except TypeError:
                        continue
                    require(False, 'another type set %s is accepted: %r', name, r)
                STAT.add('transitions')
        check_registries(m)
    except Violation as e:
        return str(e)
    except Exception:
        import traceback
        return 'unexpected ' + traceback.format_exc()


def run_clobber(name):
    r = in_child(lambda: clobber(name))
    require(not r, '%s: %s', name, r)
    STAT.add('states')
    return 'refused'


def run_many_names(case):
    """many names; each stays what it was registered as"""
    kind, n = case

    def go():
        from ..core import Violation
        m = {'types': dict(REG), 'sets': dict(SETS), 'own': {}}
        fs = []
        for i in range(n):
            f = {'types': lambda i: _reg('n%d' % i, lambda: T.String(i + 1)), 'sets': lambda i: _tset('n%d' % i, *[T.String(j + 1) for j in range(i % 5)]),
                 'own': lambda i: _own('n%d' % i, *[T.String(j + 1) for j in range(i % 5)]), 'shapes': lambda i: _named('n%d' % i, lambda name: DS(i, T.int32, name=name)),
                 'native': lambda i: _ctype('n%d' % i, 1 + i % 9)}[kind](i)
            fs.append(f)
        try:
            for f in fs:
                f(m)
            check_registries(m)
            for f in fs[::-1] + fs:
                f(m)
            check_registries(m)
        except Violation as e:
            return str(e)
    r = in_child(go)
    require(not r, '%d %s: %s', n, kind, r)
    STAT.add('states')
    STAT.add('transitions', 3 * n)
    return kind


def spaces(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    hist = lambda shard, nsh: (s for k, s in enumerate(x for m in range(1, n + 1) for x in itertools.product(RALL if m < 4 else RFEW, repeat=m)) if k % nsh == shard)
    return [Space('symbols', [(s, k, how) for s in SECTIONS for k in sorted(DEFAULT[s]) for how in ('removed', 'replaced', 'only')], run_symbol,
                  rule='every symbol of the default table removed, replaced or alone in a table'),
            tables(3 if q else 4),
            Space('default table', lambda shard, nsh: (x for k, x in enumerate(y for m in range(1, 3 if q else 4) for y in itertools.product(default_ops(), repeat=m)) if k % nsh == shard),
                  run_default, rule='every sequence of changes to the table dshape() uses, each in a process of its own, all probes read after each change'),
            Space('taken names', sorted(set(REG) | set(SETS)), run_clobber, rule='every registered name with types of every kind: refused, and nothing changes'),
            Space('many names', [(k, n) for k in ('types', 'sets', 'own', 'shapes', 'native') for n in ([1, 2, 5, 17, 33, 65, 129, 257] + ([] if q else [513, 1025, 2049]))], run_many_names,
                  rule='that many names registered, and all of them again'),
            Space('registry histories <=%d' % n, hist, run_history, show=lambda s: ', '.join(ROPS[i][0] for i in s),
                  rule='every history of registrations, each in a process of its own')]
