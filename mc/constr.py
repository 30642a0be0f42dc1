"""Documented type constructors of the default symbol table: argument alphabet and meaning."""
import itertools
from . import terms as t

I32, F64, STR = t.I32, t.F64, t.STR
# argument text -> model value ('ds', term) ('int', n) ('str', s) ('bool', b) ('list', kind, items)
ARGS = [
    ('int32', ('ds', I32)), ('float32', ('ds', t.ct('float32'))), ('float64', ('ds', F64)),
    ('3 * int32', ('ds', t.arr(I32, t.F3))), ('?string', ('ds', t.opt(STR))),
    ('{a: int32}', ('ds', t.rec(('a', I32)))),
    ('7', ('int', 7)), ('-1', ('int', -1)), ('0', ('int', 0)), ('19', ('int', 19)),
    ("'A'", ('str', 'A')), ("'utf-16'", ('str', 'utf-16')), ("'UTC'", ('str', 'UTC')),
    ("'ms'", ('str', 'ms')), ("'hours'", ('str', 'hours')), ("'T'", ('str', 'T')), ("''", ('str', '')),
    ('True', ('bool', True)), ('False', ('bool', False)),
    ('[]', ('list', '', ())), ('[int32, float64]', ('list', 'ds', (I32, F64))),
    ('[3 * string]', ('list', 'ds', (t.arr(STR, t.F3),))),
    ('[1, 2]', ('list', 'int', (1, 2))), ("['a', 'b']", ('list', 'str', ('a', 'b'))),
    ("['x']", ('list', 'str', ('x',))), ("['a', 'a']", ('list', 'str', ('a', 'a'))),
    ('[True]', ('list', 'bool', (True,))),
]
NAMES = {
    'complex': [], 'string': [], 'struct': [], 'tuple': [], 'funcproto': [], 'typevar': [],
    'option': [], 'map': ['key', 'value'], 'time': ['tz'], 'datetime': ['tz'], 'timedelta': ['unit'],
    'units': ['unit', 'tp'], 'decimal': ['precision', 'scale'],
    'categorical': ['categories', 'type', 'ordered'],
}
# (least, most) number of arguments
COUNT = {'complex': (1, 1), 'string': (1, 2), 'struct': (2, 2), 'tuple': (1, 1), 'funcproto': (2, 2),
         'typevar': (1, 1), 'option': (1, 1), 'map': (2, 2), 'time': (1, 1), 'datetime': (1, 1),
         'timedelta': (1, 1), 'units': (1, 2), 'decimal': (1, 2), 'categorical': (1, 3)}
ENC = {'A': 'A', 'ascii': 'A', 'U8': 'U8', 'utf-8': 'U8', 'utf_8': 'U8', 'utf8': 'U8', 'U16': 'U16',
       'utf-16': 'U16', 'utf_16': 'U16', 'utf16': 'U16', 'U32': 'U32', 'utf-32': 'U32', 'utf_32': 'U32',
       'utf32': 'U32'}
TUNIT = {'year': 'Y', 'week': 'W', 'day': 'D', 'date': 'D', 'hour': 'h', 'second': 's', 'millisecond': 'ms',
         'microsecond': 'us', 'nanosecond': 'ns'}
TUNIT.update({k + 's': v for k, v in list(TUNIT.items())})
TUNIT.update({u: u for u in t.UNITS})


def meaning(name, args, kwargs):
    """-> measure term | 'refuse' | None (unspecified, must still be clean)"""
    n = len(args) + len(kwargs)
    lo, hi = COUNT[name]
    if n > hi or n < lo:
        return 'refuse'
    if any(k not in NAMES[name] for k in kwargs):
        # those without documented keywords: unspecified, except a name nothing could be called
        return 'refuse' if NAMES[name] or 'bogus' in kwargs else None
    pos = dict(zip(NAMES[name], args)) if NAMES[name] else {}
    if set(pos) & set(kwargs):
        return 'refuse'
    a = dict(pos, **kwargs) if NAMES[name] else list(args)
    if name == 'complex':
        if a[0][0] != 'ds' or a[0][1] not in (t.ct('float32'), F64):
            return 'refuse'
        return ('ct', 'complex[%s]' % a[0][1][2][1])
    if name == 'string':
        if n == 1 and a[0][0] == 'int':
            return ('str', a[0][1], 'U8') if a[0][1] >= 0 else None
        if n == 1 and a[0][0] == 'str':
            return ('str', None, ENC[a[0][1]]) if a[0][1] in ENC else ('refuse' if a[0][1] else None)
        if n == 2 and a[0][0] == 'int' and a[1][0] == 'str':
            if a[0][1] < 0 or not a[1][1]:
                return None
            return ('str', a[0][1], ENC[a[1][1]]) if a[1][1] in ENC else 'refuse'
        return None if any(x[0] == 'bool' for x in a) else 'refuse' if a[0][0] in ('ds', 'list') else None
    if name == 'struct':
        names, types = a
        if names[0] == types[0] == 'list' and names[1] in ('str', '') and types[1] in ('ds', ''):
            if len(names[2]) != len(types[2]) or len(set(names[2])) < len(names[2]):
                return 'refuse'
            return ('rec', tuple(zip(names[2], types[2])))
        return None
    if name == 'tuple':
        return ('tup', a[0][2]) if a[0][0] == 'list' and a[0][1] in ('ds', '') else None
    if name == 'funcproto':
        if a[0][0] == 'list' and a[0][1] in ('ds', '') and a[1][0] == 'ds':
            return ('fn', a[0][2], a[1][1])
        return None
    if name == 'typevar':
        if a[0][0] == 'str':
            return ('tv', a[0][1]) if a[0][1][:1].isupper() and a[0][1].isalnum() else 'refuse'
        return 'refuse'
    if name == 'option':
        return ('opt', a[0][1]) if a[0][0] == 'ds' else 'refuse' if a[0][0] in ('int', 'bool', 'list') else None
    if name == 'map':
        if len(a) == 2 and a['key'][0] == a['value'][0] == 'ds':
            return ('map', a['key'][1], a['value'][1])
        return 'refuse' if any(x[0] in ('int', 'bool', 'list') for x in a.values()) else None
    if name in ('time', 'datetime'):
        if a['tz'][0] == 'str':
            return ({'time': 'time', 'datetime': 'dt'}[name], a['tz'][1])
        return 'refuse'
    if name == 'timedelta':
        if a['unit'][0] != 'str':
            return 'refuse' if a['unit'][0] in ('int', 'bool') else None
        return ('td', TUNIT[a['unit'][1]]) if a['unit'][1] in TUNIT else 'refuse'
    if name == 'units':
        if 'unit' not in a or a['unit'][0] != 'str' or a.get('tp', ('ds',))[0] != 'ds':
            return 'refuse'
        return ('units', a['unit'][1], a['tp'][1] if 'tp' in a else F64)
    if name == 'decimal':
        if 'precision' not in a:
            return 'refuse'
        if all(x[0] == 'int' for x in a.values()):
            return ('dec', a['precision'][1], a['scale'][1] if 'scale' in a else 0)
        return None if any(x[0] == 'bool' for x in a.values()) else 'refuse'
    if name == 'categorical':
        if 'categories' not in a:
            return 'refuse'
        c, ty, o = a['categories'], a.get('type'), a.get('ordered', ('bool', False))
        if c[0] != 'list':
            return None
        if c[1] == 'ds' or ty is not None and ty[0] != 'ds':
            return 'refuse'
        if o[0] != 'bool' or ty is not None and ty[1][1] or len(set(c[2])) < len(c[2]):
            return None
        if ty is not None:
            m = ty[1][2]
        elif c[1] == 'int':
            m = ('ct', 'int64')
        elif c[1] == 'bool':
            m = ('ct', 'bool')
        elif c[1] == '':
            m = STR[2]
        else:
            m = STR[2]
        return ('cat', c[2], m, o[1])
    raise KeyError(name)


def calls(maxargs):
    """every constructor x argument list of up to maxargs x keyword placement"""
    for name in NAMES:
        kws = NAMES[name] + ['bogus']
        for n in range(1, maxargs + 1):
            for npos in range(n, -1, -1):
                # positional arguments first, then distinct keywords in any order
                for ks in itertools.permutations(kws, n - npos):
                    for a in itertools.product(range(len(ARGS)), repeat=n):
                        yield name, a, ks


def text(call):
    name, a, ks = call
    npos = len(a) - len(ks)
    parts = [ARGS[i][0] for i in a[:npos]]
    parts += ['%s=%s' % (k, ARGS[i][0]) for k, i in zip(ks, a[npos:])]
    return '%s[%s]' % (name, ', '.join(parts))


def expect(call):
    name, a, ks = call
    npos = len(a) - len(ks)
    return meaning(name, [ARGS[i][1] for i in a[:npos]], {k: ARGS[i][1] for k, i in zip(ks, a[npos:])})
