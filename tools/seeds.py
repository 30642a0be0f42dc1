"""Planted bugs. Written from the property statements; see seed.py."""
SEEDS = {}
C = 'datashape/coretypes.py'; P = 'datashape/parser.py'; L = 'datashape/lexer.py'; D = 'datashape/discovery.py'
U = 'datashape/util/__init__.py'; T = 'datashape/util/testing.py'; PR = 'datashape/predicates.py'
S = 'datashape/type_symbol_table.py'; TS = 'datashape/typesets.py'; V = 'datashape/user.py'; PM = 'datashape/promote.py'
I = 'datashape/internal_utils.py'; E = 'datashape/error.py'; VA = 'datashape/validation.py'

def seed(id, prop, needs, breaks, demo, *edits):
    SEEDS[id] = dict(property=prop, needs=needs, breaks=breaks, demo=demo, edits=edits)

# ---------------------------------------------------------------- C01
seed('c01-string-zero', 'C01', 'a string type of fixed length 0', 'string[0] prints as plain string and reads back as another type',
'''
from datashape import dshape
for t in ["string[0]", "3 * {a: string[0], b: ?string[0]}", "string[4]"]:
    assert dshape(str(dshape(t))) == dshape(t), t
    assert 'string[0]' in str(dshape("string[0]"))
''',
(C, "        if self.fixlen is None and self.encoding == 'U8':\n            return 'string'\n        elif self.fixlen is not None and self.encoding == 'U8':",
    "        if not self.fixlen and self.encoding == 'U8':\n            return 'string'\n        elif self.fixlen is not None and self.encoding == 'U8':"))
seed('c01-units-dims', 'C01', 'units over an array of the default type', 'units of 3 * float64 print as if they were units of float64',
'''
from datashape import dshape
t = "units['m', 3 * float64]"
assert dshape(str(dshape(t))) == dshape(t), str(dshape(t))
''',
(C, "        if self.tp == DataShape(float64):", "        if self.tp.measure == float64:"))
seed('c01-tuple-empty-long', 'C01', 'a nested tuple whose rendering is exactly as wide as the room left', 'off by one where a tuple in a record is laid out, the closing parenthesis is lost',
'''
from datashape import dshape, pprint
ds = dshape("3 * {a: (int32, float64), b: (string, int8)}")
for w in range(0, 120):
    assert dshape(pprint(ds, width=w)) == ds, (w, pprint(ds, width=w))
''',
(C, "        short = '(%s)' % ', '.join(typs)\n        if len(result + short) < width:\n            return result + short",
    "        short = '(%s)' % ', '.join(typs)\n        if len(result + short) <= width:\n            return (result + short)[:width - 1 if len(short) > width - 1 else None]"))

# ---------------------------------------------------------------- C02
seed('c02-typevar-dim-paren', 'C02', 'a type variable ellipsis inside a tuple', 'a named ellipsis loses its name unless it begins the text',
'''
from datashape import dshape
assert str(dshape("(A... * int32, B... * int32)")) == '(A... * int32, B... * int32)'
''',
(P, "                                               saved_pos)\n                return tconstr(val)\n            elif self.tok.id == lexer.ASTERISK:", "                                               saved_pos)\n                return tconstr(self.tokens[1].val if saved_pos > 4 and self.tokens[0].id == lexer.LPAREN else val)\n            elif self.tok.id == lexer.ASTERISK:"))

# ---------------------------------------------------------------- C03
seed('c03-eof-newline', 'C03', 'the error is at the end of the text and a newline follows', 'the reported line is the empty one after the error',
'''
from datashape import dshape, DataShapeSyntaxError
try:
    dshape("3 * {a: int32,\\n b:\\n")
except DataShapeSyntaxError as e:
    assert e.line == " b:", repr(e.line)
    assert e.col_offset == 3, e.col_offset
else:
    assert 0
''',
(E, "        linestart = text.rfind('\\n', 0, lexpos)", "        linestart = text.rfind('\\n', 0, lexpos + 1)"))
seed('c03-eof-position', 'C03', 'incomplete text that ends with blanks or a comment', 'the error is placed at the end of the text instead of the end of the last token',
'''
from datashape import dshape, DataShapeSyntaxError
try:
    dshape("3 *   # comment")
except DataShapeSyntaxError as e:
    assert e.lexpos == 3, e.lexpos
else:
    assert 0
''',
(P, "                    span = (self.tokens[self.pos-1].span[1],)*2", "                    span = (max(self.tokens[self.pos-1].span[1], len(self.ds_str.rstrip())),)*2"))
seed('c03-lineno', 'C03', 'a multi-line text with an error at the first token of a line', 'the line number is that of the previous line',
'''
from datashape import dshape, DataShapeSyntaxError
try:
    dshape("{a: int32,\\n!b: int32}")
except DataShapeSyntaxError as e:
    assert e.lineno == 2, e.lineno
else:
    assert 0
''',
(E, "        self.lineno = text.count('\\n', 0, lexpos) + 1", "        self.lineno = text.count('\\n', 0, max(lexpos - 1, 0)) + 1"))

# ---------------------------------------------------------------- C04
seed('c04-comment-cr', 'C04', 'a carriage return inside of a comment', 'comments end at a carriage return',
'''
from datashape import dshape
assert str(dshape("int32 # a\\rb")) == 'int32'
''',
(L, "_whitespace = r'(?:\\s|(?:#.*$))*'", "_whitespace = r'(?:\\s|(?:#[^\\n\\r]*))*'"))
seed('c04-name-other', 'C04', 'a name of an underscore directly followed by a digit', '_1 is lexed as _ and 1',
'''
from datashape import dshape
assert dshape("{_1: int32, _a2: int8}").measure.names == ['_1', '_a2']
''',
(L, "    ('NAME_OTHER', r'_[a-zA-Z0-9_]*', lambda x : x),", "    ('NAME_OTHER', r'_(?:[a-zA-Z_][a-zA-Z0-9_]*)?', lambda x : x),"))
seed('c04-minus-zero', 'C04', 'a minus sign in front of a zero', '-0 is accepted as an integer',
'''
from datashape import dshape, lexer, DataShapeSyntaxError
try:
    list(lexer.lex("-0"))
except DataShapeSyntaxError:
    pass
else:
    assert 0
''',
(L, "r'0(?![0-9])|-?[1-9][0-9]*', int)", "r'-?0(?![0-9])|-?[1-9][0-9]*', int)"))
seed('c04-hex-upper', 'C04', 'an upper case hexadecimal escape between single quotes', 'unicode escapes with capital digits are not read in single-quoted strings',
r'''
from datashape import dshape
assert dshape("{'\\u00EF': int32}").measure.names == [u'\xef']
assert dshape('{"\\u00EF": int32}').measure.names == [u'\xef']
''',
(L, "r\"\"\"(?:'(?:[^'\\n\\r\\\\]|(?:\\\\u[0-9a-fA-F]{4})", "r\"\"\"(?:'(?:[^'\\n\\r\\\\]|(?:\\\\u[0-9a-f]{4})"))
seed('c04-blank', 'C04', 'blanks other than the ASCII ones, such as no-break space', 'only ASCII blanks separate tokens',
u'''
from datashape import dshape
assert str(dshape(u"3\\u00a0*\\u2003int32")) == '3 * int32'
assert str(dshape("3 * int32")) == '3 * int32'
''',
(L, "_whitespace = r'(?:\\s|(?:#.*$))*'", "_whitespace = r'(?:[ \\t\\n\\r\\f\\v]|(?:#.*$))*'"))

# ---------------------------------------------------------------- C05
seed('c05-utf_16', 'C05', 'the alias utf_16 of an encoding', "string['utf_16'] is UTF-8",
'''
from datashape import dshape
assert dshape("string['utf_16']") == dshape("string['U16']") == dshape("string['utf-16']")
''',
(C, "    u'utf_16': u'U16',", "    u'utf_16': u'U8',"))
# ---------------------------------------------------------------- C06
seed('c06-cat-slots', 'C06', 'two categoricals that differ in order only', 'ordered is not part of equality',
'''
from datashape import Categorical
assert Categorical(['a', 'b'], ordered=True) != Categorical(['a', 'b'], ordered=False)
''',
(C, "    __slots__ = 'categories', 'type', 'ordered'", "    __slots__ = 'categories', 'type'"))
seed('c06-fixed-bool', 'C06', 'comparing a dimension with a float or another number type', 'a dimension equals floats but hashes of large values differ; comparison is not with integers only',
'''
from datashape import Fixed
import decimal
assert Fixed(3) != 3.0 and Fixed(3) != decimal.Decimal(3)
assert Fixed(3) == 3
''',
(C, "        return (type(other) is Fixed and self.val == other.val or\n                isinstance(other, _inttypes) and self.val == other)",
    "        return (type(other) is Fixed and self.val == other.val or\n                not isinstance(other, Mono) and self.val == other)"))
seed('c06-units-repr', 'C06', 'hash-equal parameters (-1 and -2)', 'equality shortcut through the hashes makes decimals of precision -1 and -2, or categories -1 and -2, equal',
'''
from datashape import Categorical, int64
assert Categorical([-1], int64) != Categorical([-2], int64)
''',
(C, "                self.measure.info() == other.measure.info())", "                self.measure.info() == other.measure.info())") if False else
(C, "    def info(self):\n        return type(self), self.parameters", "    def info(self):\n        params = self.parameters\n        if len(params) == 3 and isinstance(params[0], tuple):\n            params = hash(params[0]), params[1], params[2]\n        return type(self), params"))
# ---------------------------------------------------------------- C07
# ---------------------------------------------------------------- C08
seed('c08-rmul-named', 'C08', 'multiplying by a numpy-like integer or a long string with several dimensions', 'text on the left with more than one dimension keeps only the last of them',
'''
from datashape import int32, dshape, var
assert var * '3 * 4 * int32' == dshape('var * 3 * 4 * int32')
assert 2 * (var * 'int32') == dshape('2 * var * int32')
''',
(C, "            import datashape\n            return datashape.dshape(other).__rmul__(self)", "            import datashape\n            other = datashape.dshape(other)\n            return DataShape(self, *other.parameters[-2:])"))
seed('c08-launder-nested', 'C08', 'a negative integer next to a type', 'an integer dimension is taken modulo by the launderer',
'''
from datashape import DataShape, int32
try:
    DataShape(-1, int32)
except ValueError:
    pass
else:
    assert 0
assert DataShape(True, int32) == DataShape(1, int32)
''',
(C, "    if isinstance(x, _inttypes):\n        x = Fixed(x)\n    if isinstance(x, _strtypes):\n        x = datashape.dshape(x)", "    if isinstance(x, _inttypes):\n        x = Fixed(abs(x))\n    if isinstance(x, _strtypes):\n        x = datashape.dshape(x)"))

# ---------------------------------------------------------------- C09
seed('c09-decimal-10', 'C09', 'a decimal of exactly 10 digits', 'decimal[10] is converted to int32, which cannot hold ten digits',
'''
from datashape import Decimal
import numpy as np
assert Decimal(10).to_numpy_dtype() == np.dtype('int64')
assert Decimal(9).to_numpy_dtype() == np.dtype('int32')
''',
(C, "            elif self.precision <= 9:", "            elif self.precision <= 10:"))
# ---------------------------------------------------------------- C10
seed('c10-list-dup', 'C10', 'an index list that names an element twice', 'repeated indices are counted once',
'''
from datashape import dshape
assert dshape('5 * int32').subshape[[1, 1, 2]] == dshape('3 * int32')
''',
(C, "            return len(index) * self.subarray(1)", "            return len(set(index)) * self.subarray(1)"))
# ---------------------------------------------------------------- C11
seed('c11-cat-print', 'C11', 'categoricals with more than ten categories that differ after the tenth', 'concatenation compares the printed types, which abbreviate long categoricals',
'''
from datashape import cat_dshapes, DataShape, Fixed, Categorical
a = Categorical(list('abcdefghijk')); b = Categorical(list('abcdefghijl'))
try:
    cat_dshapes([DataShape(Fixed(2), a), DataShape(Fixed(3), b)])
except ValueError:
    pass
else:
    assert 0
assert cat_dshapes([DataShape(Fixed(2), a), DataShape(Fixed(3), a)]) == DataShape(Fixed(5), a)
''',
(U, "        if ds[1:] != inner_ds:", "        if list(map(str, ds[1:])) != list(map(str, inner_ds)):"))
seed('c11-cat-third', 'C11', 'concatenating three or more datashapes', 'only neighbours of the first and the last are compared',
'''
from datashape import cat_dshapes, dshapes
try:
    cat_dshapes(dshapes('2 * int32', '3 * int64', '4 * int32'))
except ValueError:
    pass
else:
    assert 0
assert cat_dshapes(dshapes('2 * int32', '3 * int32', '4 * int32')) == dshapes('9 * int32')[0]
''',
(U, "        if ds[1:] != inner_ds:", "        if ds[1:] != inner_ds and (ds is dslist[-1] or ds is dslist[0]):"))
seed('c11-subarray-neg', 'C11', 'removing as many dimensions as there are terms', 'removing too many dimensions gives the measure instead of an error',
'''
from datashape import dshape
d = dshape('3 * 4 * int32')
assert d.subarray(2) == dshape('int32')
for n in (3, 4):
    try:
        d.subarray(n)
    except IndexError:
        pass
    else:
        assert 0
''',
(C, "        if leading >= len(self.parameters):\n            raise IndexError('Not enough", "        if leading > len(self.parameters):\n            raise IndexError('Not enough"),
(C, "        elif leading in [len(self.parameters) - 1, -1]:", "        elif leading >= len(self.parameters) - 1 or leading == -1:"))

# ---------------------------------------------------------------- C12 / C13
seed('c12-dims-ends', 'C12', 'nested lists whose first and last have equal lengths and a middle one does not', 'the length of the inner dimension is claimed to be fixed',
'''
from datashape import discover, dshape
assert discover([[1, 2], [1, 2, 3], [4, 5]]) == dshape('3 * var * int64'), discover([[1, 2], [1, 2, 3], [4, 5]])
''',
(D, "            if len(set(dims)) == 1:\n                return n * (dims[0]", "            if dims[0] == dims[-1]:\n                return n * (dims[0]"))
seed('c12-dict-keys', 'C12', 'a list of dictionaries of which a later one has keys the first lacks', 'only the keys of the longest dictionary are described',
'''
from datashape import discover, dshape
d = discover([{'a': 1, 'b': 2}, {'a': 1, 'c': 'x'}, {'a': 3, 'b': 1}])
assert d.measure.names == ['a', 'b', 'c'], d
''',
(D, "        keys = sorted(set.union(*(set(d) for d in seq)))", "        keys = sorted(max(seq, key=len)) if isinstance(seq, list) and len(seq) > 2 else sorted(set.union(*(set(d) for d in seq)))"))
seed('c12-object-array', 'C12', 'an object array with fewer than five elements and a non-text last one', 'only the first element of an object array is looked at',
'''
from datashape import discover, dshape
import numpy as np
assert discover(np.array(['a', 'b'], dtype='O')) == dshape('2 * string')
assert discover(np.array([['a', 'b'], ['c', 1]], dtype='O')) == dshape('2 * 2 * object')
''',
(D, "    return all(isinstance(i, _strtypes) for i in x.flat[:5].tolist())", "    return all(isinstance(i, _strtypes) for i in x.flat[:3].tolist())"))
# ---------------------------------------------------------------- C14
seed('c14-delta-blank', 'C14', 'a time difference with more than one blank or a tab', "'1  day' is not a time difference",
'''
from datashape import discover, TimeDelta
assert discover('1  day') == TimeDelta('D'), discover('1  day')
assert discover('1\\tday') == TimeDelta('D')
''',
(D, "    value, unit = re.split('\\s+', x.strip())", "    value, unit = x.strip().split(' ')"))
seed('c14-zero-time', 'C14', 'a date and time at midnight with microseconds', 'midnight plus microseconds is a date',
'''
from datashape import discover, datetime_, date_
assert discover('2014-01-01 00:00:00.000001') == datetime_
assert discover('2014-01-01 00:00:00') == date_
''',
(D, "    return not (t.hour or t.minute or t.second or t.microsecond)", "    return not (t.hour or t.minute or t.second)"))
seed('c14-delta-neg', 'C14', 'a negative fractional time difference', 'negative fractions of a unit are truncated',
'''
from datashape import discover, TimeDelta
assert not isinstance(discover('-1.5 days'), TimeDelta)
assert discover('-1 days') == TimeDelta('D')
''',
(D, "    if not value.is_integer():", "    if value % 1 > 0 and value > 0:"))

# ---------------------------------------------------------------- C15
seed('c15-bool-int8', 'C15', 'promotion of unsigned and signed types of equal width, in one order', 'promotion prefers the wider operand when one is unsigned',
'''
from datashape import promote, uint16, int8, int16, int32
assert promote(uint16, int8) == promote(int8, uint16) == int32
''',
(PM, "        np_res_type = np.result_type(datashape.to_numpy_dtype(left),\n                                     datashape.to_numpy_dtype(right))",
     "        np_left, np_right = map(datashape.to_numpy_dtype, (left, right))\n        if np_left.kind == 'u' and np_left.itemsize > np_right.itemsize:\n            np_right = abs(np.zeros(1, np_right)).astype(np_left).dtype\n        np_res_type = np.result_type(np_left, np_right)"))

# ---------------------------------------------------------------- C16
seed('c16-first-items', 'C16', 'a list of more than 64 items with a wrong one after the 64th', 'only the beginning of a long list is validated',
'''
from datashape.user import validate
from datashape import dshape
assert validate(dshape('var * int64'), [1] * 200)
assert not validate(dshape('var * int64'), [1] * 100 + ['a'])
''',
(V, "       and all(validate(DataShape(*schema[1:]), item) for item in value)))", "       and all(validate(DataShape(*schema[1:]), item) for item in value[:64])))"))
seed('c16-record-extra', 'C16', 'a dictionary in which a field is absent and the schema has several', 'absent fields are skipped when validating dictionaries',
'''
from datashape.user import validate
from datashape import dshape
r = dshape('{a: int64, b: string}')
assert validate(r, {'a': 1, 'b': 'x'})
assert not validate(r, {'a': 1}) and not validate(r, {'a': 1, 'c': 'x'})
''',
(V, "    return all(validate(sch, d.get(k)) for k, sch in schema.parameters[0])", "    return all(validate(sch, d[k]) for k, sch in schema.parameters[0] if k in d) and bool(set(d) & set(schema.names) or not schema.names)"))
seed('c16-any', 'C16', 'alternatives nested in alternatives, the matching one last', 'only the first two alternatives are tried',
'''
from datashape.user import validate
assert validate(('int64', 'string', 'float64'), 1.5)
assert not validate(('int64', 'string', 'float64'), None)
''',
(V, "    return any(validate(schema, value) for schema in schemas)", "    return any(validate(schema, value) for schema in schemas[:2])"))

# ---------------------------------------------------------------- C17/C18
seed('c17-tabular', 'C17', 'a collection of optional records', 'optional records are not tabular',
'''
from datashape import istabular, isrecord
assert istabular('var * ?{a: int32}') and isrecord('?{a: int32}')
assert istabular('3 * {a: int32}')
''',
(PR, "    return _dimensions(ds) == 1 and isrecord(ds.measure)", "    return _dimensions(ds) == 1 and isinstance(ds.measure, Record)"))
seed('c17-boolean-option', 'C17', 'a doubly wrapped option, a one-term datashape inside of an option', 'the measure of an option is taken for its own',
'''
from datashape import isdatelike, isboolean, isreal, dshape
for t in ('?date', '3 * ?date', 'var * 3 * ?datetime'):
    assert isdatelike(t) and isdatelike(dshape(t))
assert isreal('3 * ?float32') and isreal(dshape('3 * ?float32').measure)
''',
(PR, "    if isinstance(ds, DataShape):\n        ds = ds.measure\n    return getattr(ds, 'ty', ds)", "    if isinstance(ds, DataShape):\n        return getattr(ds.measure, 'ty', ds.measure)\n    return ds"))
seed('c17-homogeneous', 'C17', 'a record whose fields have equal types under different dimensions', 'only the first two types are compared',
'''
from datashape import ishomogeneous
assert not ishomogeneous('{a: int32, b: int32, c: float64}')
assert ishomogeneous('{a: int32, b: 3 * int32}')
''',
(U, "        return chain.from_iterable(collect(pred, typ) for typ in expr.types)", "        return chain.from_iterable(collect(pred, typ) for typ in expr.types[:2])"))

# ---------------------------------------------------------------- C19
seed('c19-function-kwargs', 'C19', 'flags together with a function type', 'flags are not passed on to the result of a function',
'''
from datashape import dshape
from datashape.util.testing import assert_dshape_equal
a = dshape("(int32) -> datetime[tz='A']"); b = dshape("(int32) -> datetime[tz='B']")
assert_dshape_equal(a, b, check_tz=False)
''',
(T, "        path=path + ('.restype',),\n        **kwargs\n    )", "        path=path + ('.restype',),\n    )"))
seed('c19-fixlen', 'C19', 'strings compared without their encodings', 'without checking encodings the lengths are not checked either',
'''
from datashape import dshape
from datashape.util.testing import assert_dshape_equal
try:
    assert_dshape_equal(dshape("string[3, 'A']"), dshape("string[4, 'U8']"), check_str_encoding=False)
except AssertionError:
    pass
else:
    sys.exit(1)
''',
(T, "    if check_str_fixlen:\n        assert a.fixlen == b.fixlen", "    if check_str_fixlen and (check_str_encoding or None in (a.fixlen, b.fixlen)):\n        assert a.fixlen == b.fixlen"))
seed('c19-tuple-dims', 'C19', 'check_dim=False inside of a tuple', 'dimensions of tuple elements are checked although they should not be',
'''
from datashape import dshape
from datashape.util.testing import assert_dshape_equal
assert_dshape_equal(dshape("(3 * int32, int8)"), dshape("(4 * int32, int8)"), check_dim=False)
''',
(T, "            path=path + ('[%d]' % n,),\n            **kwargs\n        )\n\n\n@dispatch(Function", "            path=path + ('[%d]' % n,),\n            **dict(kwargs, check_dim=True)\n        )\n\n\n@dispatch(Function"))

# ---------------------------------------------------------------- C20
seed('c20-supertype', 'C20', 'uint16 only', 'the super type of uint16 is the signed integers',
'''
from datashape import *
from datashape.typesets import supertype, maxtype
assert supertype(uint16) == unsigned and maxtype(uint16) == uint64
''',
(TS, "    uint16: unsigned,", "    uint16: signed,"))
seed('c20-or-name', 'C20', 'union of sets that overlap', 'the union drops types that both sets have',
'''
from datashape import *
s = TypeSet(int8, int16) | TypeSet(int16, int32)
assert int16 in s and len(s) == 3
''',
(TS, "        return TypeSet(*chain(self, other))", "        return TypeSet(*chain((t for t in self if t not in other._set), (t for t in other if t not in self._set or len(self) > len(other._order) or self._order == other._order)))"))

# ---------------------------------------------------------------- C21
seed('c21-parse-cache', 'C23', 'the default symbol table changes between two uses of one text', 'dshape caches by text and ignores the symbol table',
'''
from datashape import dshape, int32, int64
from datashape.type_symbol_table import sym
sym.dtype['foo'] = int32
assert dshape('3 * foo').measure == int32
sym.dtype['foo'] = int64
assert dshape('3 * foo').measure == int64
''',
(U, "        ds = parser.parse(o, type_symbol_table.sym)", "        ds = _parsed.get(o)\n        if ds is None:\n            ds = _parsed[o] = parser.parse(o, type_symbol_table.sym)"),
(U, "subclasses = operator.methodcaller('__subclasses__')", "_parsed = {}\nsubclasses = operator.methodcaller('__subclasses__')"))
seed('c21-names-pop', 'C21', 'a record is asserted equal without regard to order and used afterwards', 'comparing without order sorts the fields of the record in place',
'''
from datashape import dshape
from datashape.util.testing import assert_dshape_equal
a = dshape('{b: int32, a: int8}'); b = dshape('{a: int8, b: int32}')
assert_dshape_equal(a, b, check_record_order=False)
assert a.measure.names == ['b', 'a'] and a != b
''',
(T, "        afields = sorted(afields)\n        bfields = sorted(bfields)", "        a._parameters, b._parameters = (tuple(sorted(afields)),), (tuple(sorted(bfields)),)\n        afields, bfields = a.fields, b.fields"))
# ---------------------------------------------------------------- C22
seed('c22-parser-shared', 'C22', 'two threads read texts at the same time', 'the lexer position is shared between parsers',
'''
import threading
from datashape import dshape, lexer, parser
sys.setswitchinterval(1e-6)
bad = []
def work(n):
    t = '%d * {a: int32, b: (float64, string), c: %d * ?int8}' % (n, n)
    for i in range(3000):
        try:
            if str(dshape(t)) != t:
                bad.append(t)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=work, args=(i,)) for i in (3, 44)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:1]
''',
(P, "        # The array of tokens self.lex has already produced\n        self.tokens = []", "        # The array of tokens self.lex has already produced\n        self.tokens = _tokens\n        del _tokens[:]"),
(P, "__all__ = ['parse']", "__all__ = ['parse']\n_tokens = []"))
seed('c22-shared-record', 'C22', 'two threads discover data at the same time', 'the columns being discovered are kept in a shared list',
'''
import threading
from datashape import discover
sys.setswitchinterval(1e-6)
bad = []
def work(v):
    want = None
    for i in range(2000):
        try:
            got = str(discover(v))
        except Exception as e:
            got = repr(e)
        want = want or {0: '2 * {a: int64, b: int64}', 1: '3 * {c: string}'}[len(v) - 2]
        if got != want: bad.append((got, want))
ts = [threading.Thread(target=work, args=(v,)) for v in ([{'a': 1, 'b': 2}] * 2, [{'c': 'x'}] * 3)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:2]
''',
(D, "        keys = sorted(set.union(*(set(d) for d in seq)))\n        columns = [[item.get(key) for item in seq] for key in keys]",
    "        keys = _keys\n        keys[:] = sorted(set.union(*(set(d) for d in seq)))\n        columns = [[item.get(key) for item in seq] for key in keys]"),
(D, "__all__ = ['discover']", "__all__ = ['discover']\n_keys = []"))

# ---------------------------------------------------------------- C23
seed('c23-shared-dim', 'C23', 'two symbol tables, one of which is changed', 'tables share the dictionary of dimension constructors',
'''
from datashape.type_symbol_table import TypeSymbolTable, sym
a = TypeSymbolTable(); b = TypeSymbolTable()
a.dim['foo'] = 1
assert 'foo' not in b.dim and 'foo' not in sym.dim and 'foo' not in TypeSymbolTable().dim
a.dim_constr['foo'] = 1
assert 'foo' not in b.dim_constr and 'foo' not in TypeSymbolTable().dim_constr
''',
(S, "        self.dim.update(dim_no_constructor)\n        self.dim_constr.update(dim_constructor)", "        self.dim.update(dim_no_constructor)\n        self.dim_constr = self.dim_constr or _dim_constr"),
(S, "class TypeSymbolTable(object):\n", "_dim_constr = dict(dim_constructor)\n\n\nclass TypeSymbolTable(object):\n"))
seed('c23-readd', 'C23', 'adding the default types to a table in which one was replaced', 'add_default_types keeps replaced symbols',
'''
from datashape.type_symbol_table import TypeSymbolTable
import datashape as d
t = TypeSymbolTable(); t.dtype['int32'] = d.int64
t.add_default_types()
assert t.dtype['int32'] == d.int32
''',
(S, "        self.dtype.update(no_constructor_types)", "        for name, tp in no_constructor_types:\n            self.dtype.setdefault(name, tp)"))
seed('c23-empty-typeset', 'C23', 'an empty type set is registered under a name', 'a registered empty type set can be replaced',
'''
from datashape.typesets import TypeSet, registry
from datashape import int8
e = TypeSet(name='nothing')
try:
    TypeSet(int8, name='nothing')
except TypeError:
    pass
else:
    assert 0
assert registry['nothing'] == e
''',
(TS, "        if name in self.registry:\n            raise TypeError(\"TypeSet", "        if self.registry.get(name):\n            raise TypeError(\"TypeSet"))
seed('c23-ctype-clobber', 'C23', 'registering a taken name whose new type equals the old class', 'registering under a taken name is accepted if the class is that of the old type',
'''
from datashape.coretypes import Type, CType, String, string
try:
    Type.register('string', String(3))
except TypeError:
    pass
else:
    assert 0
assert Type.lookup_type('string') == string
''',
(C, "        if name in cls._registry:\n            raise", "        if name in cls._registry and not isinstance(type, String):\n            raise"))

# ---------------------------------------------------------------- C24
seed('c24-names-shared', 'C24', 'the caller changes the list of names it got', 'names returns the same list each time',
'''
from datashape import Record, int32
r = Record([('a', int32), ('b', int32)])
r.names.append('x')
r.dict['y'] = 1
assert r.names == ['a', 'b'] and sorted(r.dict) == ['a', 'b'] and str(r) == '{a: int32, b: int32}'
''',
(C, "    @property\n    def dict(self):\n        return dict(self.fields)", "    @property\n    def dict(self):\n        if not hasattr(self, '_dict'):\n            self._dict = dict(self.fields)\n        return self._dict"))
seed('c24-dup-after-str', 'C24', 'field names that are equal only after conversion to text', 'duplicates among converted names are not noticed',
'''
from datashape import Record, int32
try:
    Record([(1, int32), ('1', int32)])
except ValueError:
    pass
else:
    assert 0
''',
(C, "        if len(set(names)) != len(names):", "        if len(set(name for name, _ in fields)) != len(names):"))
seed('c24-literal-none', 'C24', 'a record literal with an empty field name', 'R[...] refuses the empty name',
'''
from datashape.coretypes import R, int32
assert R['':int32, 'a':int32].names == ['', 'a']
''',
(C, "        if name is None:\n            raise TypeError('missing field name", "        if not name:\n            raise TypeError('missing field name"))

# ---------------------------------------------------------------- C25
seed('c25-dup-message', 'C25', 'two or more duplicated names and a hash seed', 'the error message lists duplicates in the order of a set',
'''
import subprocess
from datashape import Record, int32
if len(sys.argv) > 1:
    try:
        Record([(c, int32) for c in 'abcabcabcxyzxyz'])
    except ValueError as e:
        print(e)
    sys.exit(0)
got = set()
for seed in map(str, range(8)):
    got.add(subprocess.check_output([sys.executable, os.path.abspath(__file__), 'x'], env=dict(os.environ, PYTHONHASHSEED=seed)))
assert len(got) == 1, got
''',
(C, "            for name in set(names):\n                names.remove(name)\n            raise", "            names = list(set(n for n in names if names.count(n) > 1))\n            raise"))

# ---------------------------------------------------------------- second batch
seed('c07-kwds-hash', 'C25', 'a type whose hash was taken before it was pickled, loaded in another process', 'the cached hash is pickled along, so equal types hash differently in the other process',
"""
import pickle, subprocess
from datashape import Record, Option, int32
if len(sys.argv) > 1:
    r = pickle.loads(bytes.fromhex(sys.argv[1]))
    sys.exit(0 if {r: 1}.get(Record([('a', int32)])) == 1 else 1)
r = Record([('a', int32)])
hash(r)
for seed in '1', '2', '3':
    env = dict(os.environ, PYTHONHASHSEED=seed)
    assert subprocess.call([sys.executable, os.path.abspath(__file__), pickle.dumps(r).hex()], env=env) == 0
""",
(C, "    def __getstate__(self):\n        return self.parameters\n\n    def __setstate__(self, state):\n        if self._slotted:\n            for slot, val in zip(self.__slots__, state):\n                setattr(self, slot, val)\n        else:\n            self._parameters = state\n\n    def to_numpy",
    "    def __getstate__(self):\n        return self.parameters if self._slotted or self.composite else self.__dict__\n\n    def __setstate__(self, state):\n        if self._slotted:\n            for slot, val in zip(self.__slots__, state):\n                setattr(self, slot, val)\n        else:\n            self.__dict__.update(state)\n\n    def to_numpy"))
seed('c07-setstate-zero', 'C07', 'copying a type with a parameter that is zero or empty', 'falsy parameters other than None are replaced by None when a type is restored',
"""
import pickle, copy
from datashape import String, Units, DataShape, float64, dshape
for t in (String(0), Units(''), Units('', dshape('3 * int32'))):
    u = pickle.loads(pickle.dumps(t))
    assert u == t and str(u) == str(t), t
    assert str(copy.copy(t)) == str(t)
""",
(C, "                setattr(self, slot, val)", "                setattr(self, slot, val if val or val is False or not isinstance(val, (int, basestring)) else None)"))
seed('c07-state-list', 'C07', 'deep copies of datashapes of more than two dimensions', 'restoring a datashape keeps at most the last three parameters',
"""
import pickle, copy
from datashape import dshape
d = dshape('2 * var * 3 * int32')
assert copy.deepcopy(d) == d and pickle.loads(pickle.dumps(d)) == d
""",
(C, "    def __setstate__(self, state):\n        self._parameters = state\n        self.composite = True", "    def __setstate__(self, state):\n        self._parameters = state[-3:]\n        self.composite = True"))
seed('c10-none-third', 'C10', 'None as the last part of a tuple of three', 'a trailing new axis is dropped when two indices precede it',
"""
from datashape import dshape
assert dshape('5 * 3 * int32').subshape[:, :, None] == dshape('5 * 3 * 1 * int32')
""",
(C, "                ds = self.subarray(1)._subshape(index[1:])", "                ds = self.subarray(1)._subshape(index[1:] if index[1:] != (slice(None), None) else index[1:2])"))
seed('c13-null-first', 'C13', 'rows whose first has a missing value and there are several rows', 'a missing value in the first row does not make the column optional when there are more than three rows',
"""
from datashape import discover
assert discover([[None, 1], [1, 2], [2, 3], [3, 4]]) == discover([[1, 1], [1, 2], [2, 3], [None, 4]])
""",
(D, "        if bynull.get(True):\n            base = Option(base)", "        if len(bynull.get(True, ())) > (isnull(dshapes[0]) and len(dshapes) > 3):\n            base = Option(base)"))
seed('c13-order-last', 'C13', 'three kinds of scalars in one column, in a particular order', 'the kinds of a column are sampled at both ends and the middle',
"""
from datashape import discover
import itertools
for vals in ([1, 2.0, 'a', 3], [1, 'a', 2.0, True]):
    got = set(str(discover([[v, 0] for v in p])) for p in itertools.permutations(vals))
    assert len(got) == 1, got
""",
(D, "    common = set.intersection(*[descendents(edges, ds) for ds in dshapes])", "    common = set.intersection(*[descendents(edges, ds) for ds in\n                                (dshapes[0], dshapes[len(dshapes) // 2], dshapes[-1])])"))
seed('c18-units', 'C18', 'a variable dimension inside units', 'dimensions inside units are not searched',
"""
from datashape import dshape, has_var_dim, has_ellipsis
assert has_var_dim(dshape("units['m', var * float64]"))
assert has_ellipsis(dshape("{a: units['m', ... * float64]}"))
""",
(U, "    if isinstance(ds, coretypes.Mono):\n        return any(has(typ, p) for p in ds.parameters)", "    if isinstance(ds, coretypes.Mono):\n        return (not isinstance(ds, coretypes.Unit) and\n                any(has(typ, p) for p in ds.parameters))"))
seed('c18-map-key', 'C18', 'a variable dimension in the key of a map', 'only the values of maps and the results of functions are searched',
"""
from datashape import dshape, has_var_dim
assert has_var_dim(dshape("{a: map[var * int32, int64]}"))
assert has_var_dim(dshape("3 * map[int32, var * int64]"))
""",
(U, "        return any(has(typ, p) for p in ds.parameters)", "        return any(has(typ, p) for p in (\n            (ds.value,) if isinstance(ds, coretypes.Map) else ds.parameters))"))
seed('c18-depth', 'C18', 'an ellipsis inside a type nested four levels deep', 'a record inside an option inside a record is searched in its first field only',
"""
from datashape import dshape, has_ellipsis
assert has_ellipsis(dshape("{a: ?{x: int32, y: ... * int8}}"))
assert has_ellipsis(dshape("?{x: int32, y: ... * int8}"))
""",
(U, "        return any(has(typ, p) for p in ds.parameters)", "        return any(has(typ, p) for p in ds.parameters) if not (\n            isinstance(ds, coretypes.Option) and isinstance(ds.ty, coretypes.Record)\n        ) else has(typ, ds.ty.types[0])"))
seed('c19-record-order', 'C19', 'check_record_order=False with records inside of records inside of tuples', 'the order of fields of records in tuples is checked nevertheless',
"""
from datashape import dshape
from datashape.util.testing import assert_dshape_equal
a = dshape("({a: int32, b: int8}, int32)"); b = dshape("({b: int8, a: int32}, int32)")
assert_dshape_equal(a, b, check_record_order=False)
""",
(T, "            path=path + ('[%d]' % n,),\n            **kwargs\n        )\n\n\n@dispatch(Function", "            path=path + ('[%d]' % n,),\n            **dict(kwargs, check_record_order=True)\n        )\n\n\n@dispatch(Function"))
seed('c20-matches', 'C20', 'a signature of three parameters in which the second does not match', 'a match by a type set after a mismatch makes up for it',
"""
from datashape import *
from datashape.typesets import matches_typeset
assert not matches_typeset([float32, int32], [integral, integral])
assert not matches_typeset([int32, float32, int8], [integral, integral, integral])
assert matches_typeset([int8, int32], [integral, int32])
""",
(TS, "        if check and (a not in b) or (not check and a != b):\n            match = False\n            break", "        if check and (a not in b) or (not check and a != b):\n            match = False\n        elif check and len(types) > 2:\n            match = True"))
seed('c21-cache-cap', 'C21', 'more than 512 different texts read before one is read again', 'once the parse cache is full it answers for texts of the same ends',
"""
from datashape import dshape
for i in range(1000, 2000):
    dshape('%d * int32' % i)
for i in range(1000, 2000):
    assert str(dshape('%d * int32' % i)) == '%d * int32' % i
""",
(U, "        ds = parser.parse(o, type_symbol_table.sym)", "        key = o if len(_parsed) < 512 else (len(o), hash(o) % 512)\n        ds = _parsed.get(key) if key in _parsed and len(_parsed) >= 512 else None\n        if ds is None:\n            ds = _parsed[key] = parser.parse(o, type_symbol_table.sym)"),
(U, "subclasses = operator.methodcaller('__subclasses__')", "_parsed = {}\nsubclasses = operator.methodcaller('__subclasses__')"))
seed('c25-field-order', 'C25', 'a record built from a set-like iteration in discovery of records in records', 'the order in which an ambiguous common type is chosen depends on hashes',
"""
import subprocess
from datashape import discover
if len(sys.argv) > 1:
    import datetime
    print(discover([[True, 1], [datetime.date(2000, 1, 1), 2.5]]), discover([[1], [datetime.datetime(2000, 1, 1)]]), discover([[None], [1.5], [True]]))
    sys.exit(0)
got = set()
for seed in map(str, range(10)):
    got.add(subprocess.check_output([sys.executable, os.path.abspath(__file__), 'x'], env=dict(os.environ, PYTHONHASHSEED=seed)))
assert len(got) == 1, got
""",
(D, "        return min(common, key=toposorted.index)", "        return next(iter(sorted(common, key=lambda c: len(descendents(edges, c)), reverse=True)))"),
(D, "    (string, datetime_),\n    (string, timedelta_),", "    (string, datetime_), (object_, datetime_), (object_, date_), (object_, bool_), (object_, real), (object_, int64),\n    (string, timedelta_),"))
seed('c02-kwargs-two', 'C02', 'a constructor given all three of its arguments by keyword', 'only the first two keyword arguments of a constructor reach it',
"""
from datashape import dshape
a = dshape('categorical[categories=["a"], type=string, ordered=True]').measure
b = dshape('categorical[["a"], type=string, ordered=True]').measure
assert a == b and a.ordered is True and b.ordered is True
""",
(P, "        return (args, dict(kwargs) if kwargs else {})", "        return (args, dict(kwargs[:2]) if kwargs else {})"))
seed('c02-field-other', 'C02', 'a field name that begins with an underscore and is not the first', 'after its first field a record takes no names beginning with an underscore',
"""
from datashape import dshape
assert dshape('{a: int32, _b: int32}').measure.names == ['a', '_b']
assert dshape('{_a: int32}').measure.names == ['_a']
""",
(P, "        if self.tok.id not in [lexer.NAME_LOWER, lexer.NAME_UPPER,\n                               lexer.NAME_OTHER, lexer.STRING]:\n            return None",
    "        names = [lexer.NAME_LOWER, lexer.NAME_UPPER, lexer.STRING]\n        if self.pos == 0 or self.tokens[self.pos - 1].id == lexer.LBRACE:\n            names.append(lexer.NAME_OTHER)\n        if self.tok.id not in names:\n            return None"))
seed('c05-microsecond', 'C05', 'the unit of a time difference spelled out in full', 'microseconds spelled out are taken for milliseconds',
"""
from datashape import dshape
assert dshape('timedelta[unit="microsecond"]') == dshape('timedelta[unit="us"]')
assert dshape('timedelta[unit="microseconds"]') == dshape('timedelta')
""",
(C, "    'microsecond': 'us',", "    'microsecond': 'ms',"))
seed('c08-inner-dim', 'C08', 'a type among the dimensions behind the first', 'only the first dimension of a datashape is checked to be one',
"""
from datashape import DataShape, int32, var
for ps in ((3, int32, int32), (3, var, int32, int32), (int32, int32)):
    try:
        r = DataShape(*ps)
    except TypeError:
        continue
    assert False, repr(r)
""",
(C, "            for dim in self._parameters[:-1]:", "            for dim in self._parameters[:-1][:1]:"))
seed('c09-empty-shape', 'C09', 'an array with an empty dimension', 'the shape of an empty array is lost',
"""
from datashape import from_numpy, to_numpy, DataShape
import numpy as np
for sh in ((0,), (3, 0), (0, 2)):
    ds = from_numpy(sh, np.dtype('i4'))
    assert to_numpy(ds) == (sh, np.dtype('i4')), ds
""",
(C, "    if not shape:\n        return measure\n    return DataShape(*tuple(map(Fixed, shape)) + (measure,))", "    if not np.prod(shape) or not shape:\n        return measure\n    return DataShape(*tuple(map(Fixed, shape)) + (measure,))"))
seed('c09-u16', 'C09', 'a fixed length string with an encoding of two bytes', 'UTF-16 strings become byte strings',
"""
from datashape import String
import numpy as np
for e in ('U8', 'U16', 'U32'):
    assert String(7, e).to_numpy_dtype() == np.dtype('U7'), e
assert String(7, 'A').to_numpy_dtype() == np.dtype('S7')
""",
(C, "            if self.encoding == 'A':\n                return np.dtype('S%d' % self.fixlen)", "            if self.encoding in 'A U16':\n                return np.dtype('S%d' % self.fixlen)"))
seed('c15-string-fixed', 'C15', 'text of no fixed length promoted with text of a fixed length', 'a text of no fixed length on the left wins over one of a fixed length',
"""
from datashape import promote, string, String, Option
for x in (String(5), String(3, 'A')):
    assert promote(string, x) == promote(x, string), (promote(string, x), promote(x, string))
""",
('datashape/promote.py', "    if left == right == datashape.string:", "    if left == datashape.string and isinstance(right, datashape.String):"))
seed('c22-lazy-dict', 'C22', 'two threads look up fields of one record for the first time', 'the dictionary of a record is published before it is filled',
"""
import threading
from datashape import Record, int32
import datashape.coretypes as C
rec = Record([('f%d' % i, int32) for i in range(10)])
def look(out):
    try:
        out.append(rec['f9'])
    except Exception as e:
        out.append(e)
# a second thread in the middle of the first look-up
a, b, n = [], [], [0]
def trace(frame, event, arg):
    if frame.f_code.co_filename != C.__file__:
        return None
    n[0] += 1
    if n[0] == at and not b:
        t = threading.Thread(target=look, args=(b,))
        t.start()
        t.join()
    return trace
for at in range(1, 60):
    rec = Record([('f%d' % i, int32) for i in range(10)])
    del a[:], b[:]
    n[0] = 0
    sys.settrace(trace)
    look(a)
    sys.settrace(None)
    assert all(x is int32 for x in a + b), (at, a, b)
""",
(C, "        return dict(self.fields)\n", "        try:\n            d = self._dict\n        except AttributeError:\n            d = self._dict = {}\n            for k, v in self.fields:\n                d[k] = v\n        return dict(d)\n"))
seed('c21-subshape-list', 'C21', 'the list of names used for indexing is used again', 'indexing with a list of names replaces the names in the list by positions',
"""
from datashape import dshape
names = ['b', 'a']
dshape('{a: int32, b: string}').subshape[names]
assert names == ['b', 'a'], names
""",
(C, "            index = [self[0].names.index(i) if isinstance(i, _strtypes) else i\n                     for i in index]\n            return", "            for n, i in enumerate(index):\n                if isinstance(i, _strtypes):\n                    index[n] = self[0].names.index(i)\n            return"))
seed('c16-ndarray-0d', 'C16', 'an array with the right dimensions and another scalar type', 'arrays are validated by their shape alone once both are of more than two dimensions',
"""
import numpy as np
from datashape import validate
assert not validate('1 * 2 * 2 * int32', np.zeros((1, 2, 2), 'f8'))
assert validate('1 * 2 * 2 * int32', np.zeros((1, 2, 2), 'i4'))
""",
('datashape/user.py', "    if a == b:\n        return True\n", "    if a == b or len(a) > 3 and a.shape == b.shape:\n        return True\n"))
seed('c11-cat-third-int', 'C11', 'three datashapes to concatenate of which the middle one differs', 'only every other datashape is compared when concatenating',
"""
from datashape import dshape
from datashape.util import cat_dshapes
for l in (['2 * int32', '3 * string', '4 * int32'], ['2 * int32', '3 * int32', '4 * string']):
    try:
        r = cat_dshapes([dshape(x) for x in l])
    except ValueError:
        continue
    assert False, r
""",
(U, "    for ds in dslist[1:]:\n        outer_dim_size += operator.index(ds[0])\n        if ds[1:] != inner_ds:", "    for i, ds in enumerate(dslist[1:]):\n        outer_dim_size += operator.index(ds[0])\n        if len(dslist) != 3 and ds[1:] != inner_ds or i != 0 and ds[1:] != inner_ds or len(dslist) == 2 and ds[1:] != inner_ds:"))

seed('c05-ellipsis-blank', 'C05', 'spaces between the name and the dots of an ellipsis', 'a named ellipsis with blanks before its dots loses its name',
"""
from datashape import dshape
assert dshape('A... * int32') == dshape('A ... * int32')
assert str(dshape('A ... * int32')) == 'A... * int32'
""",
(P, "                return tconstr(val)\n            elif self.tok.id == lexer.ASTERISK:", "                return (tconstr(val) if self.tokens[saved_pos].span[1] ==\n                        self.tokens[saved_pos + 1].span[0] else self.sym.dim['ellipsis'])\n            elif self.tok.id == lexer.ASTERISK:"))
seed('c15-half-int16', 'C15', 'a half precision float with an integer of 16 bits', 'a float and an integer of the same width promote to the float',
"""
from datashape import promote, int8, int16, uint16, float16, float32, int32, float64, int64
assert promote(float16, int16) == float32 and promote(int16, float16) == float32 and promote(uint16, float16) == float32
assert promote(int32, float32) == float64
""",
('datashape/promote.py', "        dtype = datashape.CType.from_numpy_dtype(np_res_type)", "        dtype = datashape.CType.from_numpy_dtype(\n            np.dtype('f2') if np_res_type == np.dtype('f4') and\n            max(datashape.to_numpy_dtype(x).itemsize for x in (left, right)) == 2\n            else np_res_type)"))
seed('c12-inner-mapping', 'C12', 'a mapping with more than three keys which is itself the only value of a mapping', 'the fields of an inner mapping beyond the third are left out',
"""
from datashape import discover
d = {'a': {'b': 1, 'c': 2, 'd': 3, 'e': 4}}
assert str(discover(d)) == '{a: {b: int64, c: int64, d: int64, e: int64}}', discover(d)
""",
(D, "    return Record((k, discover(m[k])) for k in sorted(m))", "    return Record((k, discover(m[k] if len(m) > 1 or not isinstance(m[k], dict) else\n                               dict(sorted(m[k].items())[:3])))\n                  for k in sorted(m))"))
seed('c13-fourth', 'C13', 'a column of four or more values of which only the last is of another kind', 'the common type of a column is found from its first three values',
"""
from datashape import discover
a = discover([(1, 'a'), (2, 'b'), (3, 'c'), (2.5, 'd')])
b = discover([(2.5, 'd'), (1, 'a'), (2, 'b'), (3, 'c')])
assert a == b and str(a) == '4 * (float64, string)', (a, b)
""",
(D, "    common = set.intersection(*[descendents(edges, ds) for ds in dshapes])", "    common = set.intersection(*[descendents(edges, ds) for ds in dshapes[:3]])"))
seed('c22-typeset-members', 'C22', 'two threads test for the members of one type set for the first time', 'the members of a type set are published before they are complete',
"""
import threading
import datashape.typesets as T
from datashape import int8, int16, int32, float64, string
def look(ts, out):
    out.append(string in ts)
a, b, n = [], [], [0]
def trace(frame, event, arg):
    if frame.f_code.co_filename != T.__file__:
        return None
    n[0] += 1
    if n[0] == at and not b:
        t = threading.Thread(target=look, args=(ts, b))
        t.start()
        t.join()
    return trace
for at in range(1, 60):
    ts = T.TypeSet(int8, int16, int32, float64, string)
    del a[:], b[:]
    n[0] = 0
    sys.settrace(trace)
    look(ts, a)
    sys.settrace(None)
    assert all(a + b), (at, a, b)
""",
(TS, "        return set(self._order)\n", "        members = _members.get(id(self._order))\n        if members is None:\n            members = _members[id(self._order)] = set()\n            for t in self._order:\n                members.add(t)\n            _members[id(members)] = self._order\n        return members\n"),
(TS, "class TypeSet(Unit):", "_members = {}\n\n\nclass TypeSet(Unit):"))
seed('c24-far-dup', 'C24', 'two fields of the same name with sixteen or more fields between them', 'only the last sixteen names are compared for duplicates',
"""
from datashape import Record, dshape
for n in range(0, 40):
    l = [('a', 'int32')] + [('b%d' % i, 'int32') for i in range(n)] + [('a', 'string')]
    try:
        r = Record(l)
    except ValueError:
        continue
    assert False, r
""",
(C, "        if len(set(names)) != len(names):\n", "        if len(set(names[-16:])) != len(names[-16:]):\n"))
seed('c23-single-typeset', 'C23', 'a type set of one member is registered a second time', 'a registered type set of a single type can be replaced',
"""
from datashape import int8, int16
import datashape.typesets as T
before = T.lookup('boolean')
try:
    T.TypeSet(int8, int16, name='boolean')
except TypeError:
    pass
else:
    assert False
assert T.lookup('boolean') is before
""",
(TS, "        if name in self.registry:\n", "        if name in self.registry and self.registry[name].types[1:]:\n"))

# ------------------------------------------------------------ third batch
seed('c23-fixed-direct', 'C23', 'a symbol table that maps integer dimensions to something else', 'integer dimensions ignore the symbol table',
"""
from datashape import TypeSymbolTable, coretypes as ct, parser
sym = TypeSymbolTable()
sym.dim_constr['fixed'] = lambda n: ct.Fixed(n + 1)
assert parser.parse('3 * int32', sym) == ct.DataShape(ct.Fixed(4), ct.int32)
""",
(P, "            tconstr = self.syntactic_sugar(self.sym.dim_constr, 'fixed',\n                                           'integer dimensions')\n            return tconstr(val)",
    "            self.syntactic_sugar(self.sym.dim_constr, 'fixed',\n                                 'integer dimensions')\n            return coretypes.Fixed(val)"))
seed('c24-strip', 'C24', 'field names with blanks around them', 'blanks around the names of fields are dropped',
"""
from datashape import Record, int32, int8, dshape
r = Record([(' a', int32), ('a', int8)])
assert r.names == [' a', 'a'] and r[' a'] == int32
assert dshape("{' b ': int32}").measure.names == [' b ']
""",
(C, "            str(name) if not isinstance(name, _strtypes) else name\n            for name, _ in fields", "            str(name) if not isinstance(name, _strtypes) else name.strip()\n            for name, _ in fields"))
seed('c09-offset-order', 'C09', 'a dtype whose fields lie in memory in another order than their names', 'the fields of a structured dtype are taken in the order of their offsets',
"""
import numpy as np
from datashape import from_numpy
dt = np.dtype({'names': ['a', 'b'], 'formats': ['i4', 'i8'], 'offsets': [8, 0]})
assert from_numpy((), dt).names == ['a', 'b']
""",
(C, "        fields = [(name, dtype.fields[name]) for name in dtype.names]", "        fields = sorted(((name, dtype.fields[name]) for name in dtype.names),\n                        key=lambda item: item[1][1])"))
seed('c10-trailing-slices', 'C10', 'more full slices than there are dimensions behind an integer', 'full slices behind the first index are ignored, also where there is nothing to slice',
"""
from datashape import dshape
assert dshape('3 * 4 * int32').subshape[0, :] == dshape('4 * int32')
for i in [(0, slice(None)), (0, slice(None), slice(None))]:
    try:
        r = dshape('3 * int32').subshape[i]
    except IndexError:
        pass
    else:
        assert 0, r
""",
(C, "            elif len(index) == 1:\n                return self._subshape(index[0])", "            elif all(i == slice(None) for i in index[1:]):\n                return self._subshape(index[0])"))
seed('c17-tabular-2d', 'C17', 'records under two dimensions', 'every collection of records is tabular',
"""
from datashape import istabular
assert istabular('3 * {a: int32}') and not istabular('3 * var * {a: int32}')
""",
(PR, "    return _dimensions(ds) == 1 and isrecord(ds.measure)", "    return _dimensions(ds) >= 1 and isrecord(ds.measure)"))
seed('c19-time-datetime', 'C19', 'a time against a datetime while time zones are not checked', 'times and datetimes are told apart only while their zones are checked',
"""
from datashape import dshape
from datashape.util.testing import assert_dshape_equal
try:
    assert_dshape_equal(dshape('3 * {a: time}'), dshape('3 * {a: datetime}'), check_tz=False)
except AssertionError:
    pass
else:
    raise SystemExit(1)
""",
(T, "    if type(a) != type(b):\n        return _base_case(a, b, path=path)", "    if check_tz and type(a) != type(b):\n        return _base_case(a, b, path=path)"))
seed('c25-key-case', 'C25', 'dictionaries whose keys differ only in case', 'fields whose names differ in case only come in the order of a set',
"""
import subprocess
if len(sys.argv) > 1:
    from datashape import discover
    print(discover([{'Aa': 1, 'aa': 2, 'aA': 3, 'AA': 4}, {'Aa': 1.5}]))
    sys.exit(0)
got = set()
for seed in map(str, range(12)):
    got.add(subprocess.check_output([sys.executable, '-W', 'ignore', os.path.abspath(__file__), 'x'], env=dict(os.environ, PYTHONHASHSEED=seed)))
assert len(got) == 1, got
""",
(D, "        keys = sorted(set.union(*(set(d) for d in seq)))", "        keys = sorted(set.union(*(set(d) for d in seq)),\n                      key=lambda k: k.lower() if isinstance(k, str) else k)"))
seed('c22-pprint-buffer', 'C22', 'two threads lay out tuples at the same time', 'the elements of a tuple are collected in a list all calls share',
"""
import threading
from datashape import dshape, pprint
sys.setswitchinterval(1e-6)
a, b = dshape('(' + ', '.join('int32' for i in range(30)) + ')'), dshape('(' + ', '.join('string' for i in range(30)) + ')')
sa, sb = pprint(a), pprint(b)
bad = []
def work(x, s):
    for i in range(3000):
        try:
            if pprint(x) != s:
                bad.append(1)
        except Exception as e:
            bad.append(e)
        if bad:
            return
ts = [threading.Thread(target=work, args=p) for p in [(a, sa), (b, sb)] * 2]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:1]
""",
(C, "def pprint(ds, width=80):\n", "_parts = []\n\n\ndef pprint(ds, width=80):\n"),
(C, "        typs = [pprint(typ, width-len(result))\n                for typ in ds.dshapes]\n", "        mark = len(_parts)\n        for typ in ds.dshapes:\n            _parts.append(pprint(typ, width-len(result)))\n        typs = _parts[mark:]\n        del _parts[mark:]\n"))
seed('c13-date-column', 'C13', 'a column of dates and of dates with times', 'a column of dates and times is of the kind of its first value',
"""
import warnings; warnings.simplefilter('ignore')
from datashape import discover
v = [discover([('2014-01-01', 1), ('2014-01-01 10:00:01', 2), ('2014-01-02', 1), ('2014-01-03', 1)]), discover([('2014-01-01 10:00:01', 2), ('2014-01-01', 1), ('2014-01-02', 1), ('2014-01-03', 1)])]
assert v[0] == v[1], v
""",
(D, "    if common and any(c in toposorted for c in common):\n        return min(common, key=toposorted.index)", "    if common and any(c in toposorted for c in common):\n        return min(common, key=toposorted.index) if datetime_ not in common or len(dshapes) < 4 else dshapes[0]"))
seed('c05-plural-units', 'C05', 'the abbreviations of units in the plural', 'the plural of an abbreviated unit is refused or another unit',
"""
from datashape import dshape
for t, u in [("timedelta[unit='days']", 'D'), ("timedelta[unit='nanoseconds']", 'ns'), ("timedelta['weeks']", 'W'), ("timedelta['dates']", 'D'), ("timedelta['hours']", 'h')]:
    assert dshape(t) == dshape("timedelta[unit='%s']" % u), t
""",
(C, "    'date': 'D',\n", ""))
seed('c07-option-str', 'C07', 'a copy of a type one of whose parameters is text that Python keeps only once', 'parameters which are empty text are None in a copy',
"""
import copy, pickle
from datashape import DateTime, Time, Units, dshape, Categorical
for x in [DateTime(tz=''), Time(''), DateTime('UTC'), dshape("{a: datetime[tz='']}"), dshape("units['']")]:
    for y in (copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x, 2))):
        assert y == x and str(y) == str(x), x
""",
(C, "                setattr(self, slot, val)\n        else:", "                setattr(self, slot, val if val != '' else None)\n        else:"))
seed('c14-midnight-zone', 'C14', 'a date and time at midnight with a time zone', 'midnight in a time zone',
"""
import warnings; warnings.simplefilter('ignore')
from datashape import discover
assert str(discover('2014-01-01')) == 'date' and str(discover('2014-01-01T00:00:00')) == 'date'
assert str(discover('2014-01-01 10:00')) == 'datetime'
assert str(discover('2014-01-01 00:00:01')) == 'datetime' and str(discover('2014-01-01 00:01')) == 'datetime'
assert str(discover('2014-01-01 00:00:00.5')) == 'datetime'
""",
(D, "    return not (t.hour or t.minute or t.second or t.microsecond)", "    return not (t.hour * 60 + t.minute or t.microsecond and not t.second or t.second % 60 and t.microsecond)"))
seed('c12-tuple-first', 'C12', 'rows of which a later one is longer, in a list that begins with equal ones', 'only the first and the second of the rows are compared for length',
"""
import warnings; warnings.simplefilter('ignore')
from datashape import discover
ds = discover([(1, 'a'), (2, 'b'), (3, 'c', None), (4, 'd')])
assert str(ds) != '4 * (int64, string)', ds
""",
(D, "            len(set(map(len, seq))) == 1):", "            len(set(map(len, list(seq)[:2] + list(seq)[-1:]))) == 1):"))

# ---------------------------------------------------------------- second blind round
seed('c01-func-tuple', 'C01', 'a function whose only argument is a tuple', 'the parentheses of a lone tuple argument are taken for those of the argument list',
'''
from datashape import dshape
for t in ["((int32, string)) -> int8", "3 * {f: ((int8, int8)) -> float64}", "(int32, string) -> int8"]:
    ds = dshape(t)
    assert dshape(str(ds)) == ds, str(ds)
assert len(dshape("((int32, string)) -> int8").measure.argtypes) == 1
''',
(C, "        return '(%s) -> %s' % (\n            ', '.join(map(str, self.argtypes)), self.restype\n        )",
    "        args = ', '.join(map(str, self.argtypes))\n        if not (args.startswith('(') and args.endswith(')') and args.count('(') == 1):\n            args = '(%s)' % args\n        return '%s -> %s' % (args, self.restype)"))
seed('c07-hash-travels', 'C07', 'a type that was hashed before it was pickled and is read by a process with another hash seed', 'the cached hash is part of the pickled state, and is wrong in another process',
'''
import os, pickle, subprocess, sys
from datashape import dshape, int32, string, Option, Map
t = Option(string)
hash(t)
data = pickle.dumps([t, Option(Map(string, int32))])
code = "import pickle, sys; a = pickle.loads(sys.stdin.buffer.read()); from datashape import Option, string; assert a[0] == Option(string) and hash(a[0]) == hash(Option(string)) and len({a[0], Option(string)}) == 1"
for seed in '12', '77':
    env = dict(os.environ, PYTHONHASHSEED=seed)
    p = subprocess.run([sys.executable, '-c', code], input=data, env=env)
    assert p.returncode == 0
''',
(C, "    def __getstate__(self):\n        return self.parameters\n\n    def __setstate__(self, state):\n        if self._slotted:\n            for slot, val in zip(self.__slots__, state):\n                setattr(self, slot, val)\n        else:\n            self._parameters = state",
    "    def __getstate__(self):\n        return self.parameters, getattr(self, '_hash', None)\n\n    def __setstate__(self, state):\n        state, h = state\n        if h is not None:\n            self._hash = h\n        if self._slotted:\n            for slot, val in zip(self.__slots__, state):\n                setattr(self, slot, val)\n        else:\n            self._parameters = state"),
(C, "    def __setstate__(self, state):\n        self._parameters = state\n        self.composite = True", "    def __setstate__(self, state):\n        super(DataShape, self).__setstate__(state)\n        self.composite = True"))
seed('c21-promote-memo', 'C21', 'promoting the same two types with and without options, in this order', 'promotions are remembered without the flag they were asked with',
'''
from datashape import promote, Option, int32, complex128, string
assert promote(Option(int32), complex128) == Option(complex128)
assert promote(Option(int32), complex128, promote_option=False) == complex128
assert promote(Option(int32), complex128) == Option(complex128)
''',
(PM, "__all__ = ['promote', 'optionify']\n", "__all__ = ['promote', 'optionify']\n\n_seen = {}\n"),
(PM, "    if promote_option:\n        dtype = optionify(lhs, rhs, dtype)\n    return dtype",
     "    if promote_option:\n        dtype = optionify(lhs, rhs, dtype)\n    if str(dtype).lstrip('?')[0] not in 'uc':\n        return dtype\n    return _seen.setdefault((lhs, rhs), dtype)"))
seed('c21-discover-memo', 'C21', 'tuples of mixed kinds that are equal and hold numbers of different types', 'types of tuples are remembered by value, and equal values of different types share one',
'''
from datashape import discover, dshape
assert discover((1, 'a', 2.0)) == dshape("(int64, string, float64)").measure
assert discover((1.0, 'a', 2)) == dshape("(float64, string, int64)").measure
assert discover((True, 'a', 2)) == dshape("(bool, string, int64)").measure
''',
('datashape/discovery.py', "    types = list(map(discover, seq))\n    return do_one([unite_identical, unite_merge_dimensions, Tuple])(types)",
 "    if not isinstance(seq, tuple):\n        types = list(map(discover, seq))\n    else:\n        try:\n            return _tuples[seq]\n        except (KeyError, TypeError):\n            types = list(map(discover, seq))\n    result = do_one([unite_identical, unite_merge_dimensions, Tuple])(types)\n    try:\n        _tuples[seq] = result\n    except TypeError:\n        pass\n    return result"),
('datashape/discovery.py', "def isnull(ds):\n    return ds == null or ds == DataShape(null)", "_tuples = {}\n\n\ndef isnull(ds):\n    return ds == null or ds == DataShape(null)"))
seed('c23-parse-memo', 'C23', 'the same text read against two tables', 'results of the parser are remembered by text, whatever the table',
'''
from datashape import parser, type_symbol_table as t, coretypes as c, dshape
a, b = t.TypeSymbolTable(), t.TypeSymbolTable()
a.dtype['thing'] = c.int8
b.dtype['thing'] = c.string
assert parser.parse('3 * thing', a) == dshape('3 * int8')
assert parser.parse('3 * thing', b) == dshape('3 * string')
assert parser.parse('3 * thing', a) == dshape('3 * int8')
''',
(P, "    dsp = DataShapeParser(ds_str, sym)\n    ds = dsp.parse_datashape()", "    if _parsed.get(ds_str) is not None:\n        return _parsed[ds_str]\n    dsp = DataShapeParser(ds_str, sym)\n    ds = dsp.parse_datashape()"),
(P, "        dsp.raise_error('Unexpected token in datashape')\n    return ds", "        dsp.raise_error('Unexpected token in datashape')\n    return _parsed.setdefault(ds_str, ds)"),
(P, "__all__ = ['parse']\n", "__all__ = ['parse']\n\n# Texts that were read before\n_parsed = {}\n"))
seed('c03-linecount-cr', 'C03', 'an error behind a line break of the old kind', 'the line number counts carriage returns, the line and the column do not',
'''
from datashape import dshape
from datashape.error import DataShapeSyntaxError
for text in ("3 *\\r\\n{a: int32,\\r\\n b: %}", "3 * \\n\\r { a: %", "\\r3 * %"):
    try:
        dshape(text)
    except DataShapeSyntaxError as e:
        lines = text.split('\\n')
        assert e.line == lines[e.lineno - 1], (text, e.lineno)
        assert e.line[e.col_offset:e.col_offset + 1] == '%'
    else:
        assert 0
''',
(E, "        self.lineno = text.count('\\n', 0, lexpos) + 1", "        self.lineno = len(text[:lexpos].replace('\\r', '\\n').split('\\n'))"))
seed('c18-categorical', 'C18', 'a constructor applied in front of a dimension several levels down', 'the search for variable dimensions does not look into functions in records in arrays',
'''
from datashape import dshape
from datashape.util import has_var_dim, has_ellipsis
for t in ("2 * {a: (var * int32) -> int8}", "(2 * {a: (int8) -> ... * int32}) -> int8", "{a: {b: (var * int8) -> int8}}"):
    assert has_var_dim(dshape(t)), t
assert not has_var_dim(dshape("2 * {a: (int32) -> int8}"))
''',
(U, "    if isinstance(ds, coretypes.Record):\n        return any(has(typ, t) for t in ds.types)\n    if isinstance(ds, coretypes.Mono):\n        return any(has(typ, p) for p in ds.parameters)",
    "    if isinstance(ds, coretypes.Record):\n        return any(has(typ, t) for t in ds.types\n                   if not isinstance(t, coretypes.Function))\n    if isinstance(ds, coretypes.Mono):\n        return any(has(typ, p) for p in ds.parameters)"))
# ---------------------------------------------------------------- C26
AT = """
from datashape import dshape
from datashape.util.testing import assert_dshape_equal
def at(a, b, **kw):
    try:
        assert_dshape_equal(dshape(a), dshape(b), **kw)
    except AssertionError as e:
        lines = [x for x in str(e).split('\\n') if x.startswith('path: ')]
        return lines[-1][6:] if lines else ''
    assert False, 'equal'
"""
seed('c26-tuple-index', 'C26', 'a tuple with the same type twice, the second of which differs', 'the path has the index of the first item that looks the same',
AT + """
assert at("(int32, int32)", "(int32, int8)").startswith("_.measure.dshapes[1].")
assert at("(int8, int32)", "(int8, int8)").startswith("_.measure.dshapes[1].")
""",
(T, "            path=path + ('[%d]' % n,),", "            path=path + ('[%d]' % a.dshapes.index(ashape),),"))
seed('c26-repeated-dim', 'C26', 'an array with the same dimension twice, the second of which was another', 'the path has the index of the first dimension that looks the same',
AT + """
assert at("3 * 4 * int32", "3 * 3 * int32") == "_.shape[1]"
assert at("2 * 3 * int32", "2 * 4 * int32") == "_.shape[1]"
""",
(T, "                path += '.shape[%d]' % n,", "                path += '.shape[%d]' % list(bshape).index(bdim),"))
seed('c26-no-arguments', 'C26', 'a function without arguments inside another type, whose result differs', 'the path to the result is built from that of the last argument, and is lost where there is none',
AT + """
assert at("3 * (int32) -> int8", "3 * (int32) -> int16").startswith("_.measure.restype")
assert at("{a: () -> int8}", "{a: () -> int16}").startswith("_.measure['a'].restype"), 1
""",
(T, "    for n, (aarg, barg) in enumerate(zip(a.argtypes, b.argtypes)):\n        assert_dshape_equal(\n            aarg,\n            barg,\n            path=path + ('.argtypes[%d]' % n,), **kwargs\n        )",
 "    step = '',\n    for n, (aarg, barg) in enumerate(zip(a.argtypes, b.argtypes)):\n        step = path + ('.argtypes[%d]' % n,)\n        assert_dshape_equal(\n            aarg,\n            barg,\n            path=step, **kwargs\n        )"),
(T, "        path=path + ('.restype',),", "        path=step[:-1] + ('.restype',),"))
seed('c26-name-quotes', 'C26', 'a field whose name has a quote or a backslash in it', 'the name of the field is put between quotes as it is',
AT + """
import ast
for n in ("it's", 'a', "''"):
    p = at('{"%s": int8}' % n, '{"%s": int16}' % n)
    assert p.startswith('_.measure[') and p.endswith('].name'), p
    assert ast.literal_eval(p[10:-6]) == dshape('{"%s": int8}' % n).measure.names[0], p
""",
(T, "            path=path + ('[%s]' % repr(aname),),", "            path=path + (\"['%s']\" % aname,),"))
seed('c26-option-in-tuple', 'C26', 'an optional type inside an optional record', 'the step into the option is added only at the top',
AT + """
assert at("{a: ?string[3]}", "{a: ?string[4]}") .endswith("['a'].ty.fixlen")
assert at("?{a: ?string[3]}", "?{a: ?string[4]}") .endswith(".ty['a'].ty.fixlen")
""",
(T, "    path += '.ty',\n", "    if '.ty' not in path:\n        path += '.ty',\n"))
# ---------------------------------------------------------------- C27
seed('c27-int-shortcut', 'C27', 'a subclass of int with a function of its own, inside a list', 'whole numbers in a column are not discovered but known to be int64',
"""
from datashape import discover, int8, dshape
class Small(int): pass
assert discover([(Small(1), 'a'), (Small(2), 'b')]) == dshape('2 * (int64, string)')
discover.register(Small)(lambda x: int8)
assert discover(Small(1)) == int8
assert discover([Small(1), Small(2)]) == dshape('2 * int8')
assert discover([(Small(1), 'a'), (Small(2), 'b')]) == dshape('2 * (int8, string)')
""",
(D, "            types = [unite([discover(data) for data in column]).subshape[0]\n                     for column in columns]\n            unite = do_one(", "            types = [unite([int64 if isinstance(data, _inttypes) and not\n                            isinstance(data, bool) else discover(data)\n                            for data in column]).subshape[0]\n                     for column in columns]\n            unite = do_one("))
seed('c27-first-of-column', 'C27', 'a class whose instances have different types, in a column of a table', 'a column of objects of one class is described by the first of them',
"""
from datashape import discover, int8, dshape
class Col(object):
    def __init__(self, n): self.n = n
discover.register(Col)(lambda x: x.n * int8)
assert discover([{'k': Col(2)}, {'k': Col(2)}]) == dshape('2 * {k: 2 * int8}')
assert discover([{'k': Col(2)}, {'k': Col(3)}]) == dshape('2 * {k: var * int8}')
assert discover([{'k': 2}, {'k': '3'}, {'k': 'x'}, {'k': [1]}]) != discover([{'k': 2}] * 4)
""",
(D, "            types = [unite([discover(data) for data in column]).subshape[0]\n                     for column in columns]\n            return len(seq) * Record(", "            types = [unite([discover(data) for data in column]\n                           if len(set(map(type, column))) > 1 or\n                           isinstance(column[0], (tuple, list, dict, set,\n                                                  frozenset, np.ndarray) +\n                                      _strtypes + (MappingProxyType,))\n                           else [discover(column[0])] * len(column)\n                           ).subshape[0]\n                     for column in columns]\n            return len(seq) * Record("))
seed('c27-dict-shortcut', 'C27', 'a subclass of a date with a function of its own, as a value of a dictionary', 'values of dictionaries are looked up by the kinds of scalars first',
"""
from datetime import date, datetime
from datashape import discover, dshape, int16
class Year(date): pass
assert discover({'a': Year(2000, 1, 1), 'b': date(2000, 1, 1), 'c': datetime(2000, 1, 1)}) == dshape('{a: date, b: date, c: datetime}').measure
discover.register(Year)(lambda x: int16)
assert discover(Year(2000, 1, 1)) == int16
assert discover({'a': Year(2000, 1, 1)}) == dshape('{a: int16}').measure
""",
(D, "    return Record((k, discover(m[k])) for k in sorted(m))", "    return Record((k, date_ if isinstance(m[k], date) and\n                   not isinstance(m[k], datetime) else discover(m[k]))\n                  for k in sorted(m))"))
seed('c27-validate-elements', 'C27', 'validating elements of a class for which validation was registered, next to others', 'elements that are of no basic kind are refused before their functions are asked',
"""
from datetime import date
from datashape import validate, dshape, Date
class Day(object): pass
validate.register(Date, Day)(lambda schema, value: True)
assert validate('date', Day())
assert validate('2 * date', [date(2000, 1, 1), Day()])
assert validate('2 * date', [Day(), Day()])
assert not validate('2 * int32', [Day(), 1])
""",
(V, "       and all(validate(DataShape(*schema[1:]), item) for item in value)))", "       and all(isinstance(item, basetypes + (tuple, list, dict, np.ndarray))\n               and validate(DataShape(*schema[1:]), item) for item in value)))"))
# ---------------------------------------------------------------- C28
seed('c28-heir', 'C28', 'a class of types derived from one with parameters, without slots of its own', 'the slots of a class are looked for in the class itself only',
"""
from datashape import coretypes as T
class Size(T.Unit):
    cls = T.MEASURE
    __slots__ = 'n',
    def __init__(self, n): self.n = n
class Heir(Size): pass
assert Size(3) == Size(3) and Size(3) != Size(4)
assert Heir(3) == Heir(3) and Heir(3) != Heir(4) and Heir(3).parameters == (3,)
assert T.Tuple([T.int32]) == T.Tuple([T.int32])
""",
(C, "        return hasattr(self, '__slots__')", "        return '__slots__' in type(self).__dict__"))
seed('c28-one-parameter', 'C28', 'a type of a user whose only parameter is a tuple', 'a single tuple given to the base class is taken for all of the parameters',
"""
from datashape import coretypes as T
class Stack(T.Mono): cls = T.DIMENSION
assert Stack(2, 1).parameters == (2, 1) and Stack((2, 1)).parameters == ((2, 1),)
assert Stack((2, 1)) != Stack(2, 1)
assert type(Stack((2, 1)))(*Stack((2, 1)).parameters) == Stack((2, 1))
""",
(C, "        self._parameters = params\n", "        self._parameters = (params[0] if len(params) == 1 and\n                            isinstance(params[0], tuple) else params)\n"))
seed('c28-search', 'C28', 'a variable dimension inside a type of a class defined by a user', 'searches look into the types that the library knows to have parts only',
"""
from datashape import coretypes as T, dshape
from datashape.util import has_var_dim
class Box(T.Mono):
    cls = T.MEASURE
    __slots__ = 'item',
    def __init__(self, item): self.item = item
assert has_var_dim(T.DataShape(3, T.Tuple([dshape('?(var * int8)')])))
assert has_var_dim(T.DataShape(3, Box(dshape('var * int8')))) and not has_var_dim(T.DataShape(3, Box(dshape('int8'))))
""",
(U, "    if isinstance(ds, coretypes.Mono):\n        return any(has(typ, p) for p in ds.parameters)", "    if isinstance(ds, (coretypes.DataShape, coretypes.Option, coretypes.Tuple,\n                       coretypes.Function, coretypes.Map, coretypes.Units,\n                       coretypes.Ellipsis)):\n        return any(has(typ, p) for p in ds.parameters)"))
seed('c28-derived-equal', 'C28', 'a type of a class derived from another with the same parameters', 'a type equals one of a derived class, and only in one direction',
"""
from datashape import coretypes as T
class Day(T.Date): __slots__ = ()
assert T.date_ == T.Date() and T.int32 != T.int64
assert Day() != T.Date() and T.Date() != Day() and Day() == Day()
assert T.DataShape(3, Day()) != T.DataShape(3, T.Date()) and T.DataShape(3, T.Date()) != T.DataShape(3, Day())
""",
(C, "                self.measure.info() == other.measure.info())", "                isinstance(other.measure, type(self.measure)) and\n                self.measure.parameters == other.measure.parameters)"))
seed('c02-kwarg-trailing', 'C02', 'a comma after the last keyword argument of a type constructor', 'keyword arguments may be followed by a comma',
"""
from datashape import dshape, DataShapeSyntaxError
assert str(dshape("datetime[tz='UTC']")) == "datetime[tz='UTC']"
try: dshape("datetime[tz='UTC',]")
except DataShapeSyntaxError: pass
else: raise AssertionError('accepted')
""",
(P, "                                           'positional arguments cannot follow ' +\n                                           'keyword arguments')", "                                           'positional arguments cannot follow ' +\n                                           'keyword arguments',\n                                           trailing_sep=True)"))
seed('c06-zone-kinds', 'C06', 'a time and a date and time with the same time zone', 'types with time zones are compared by their zones only',
"""
import copy
from datashape import dshape, Tuple, coretypes as T
a = dshape('{a: int8, b: (int8, int16)}'); hash(a.measure)
r = copy.copy(a.measure); assert r == a.measure and hash(r) == hash(a.measure)
t = T.Tuple([T.int8]); hash(t)
u = T.Tuple.__new__(T.Tuple); u.__setstate__(t.__getstate__())
assert u == t and hash(u) == hash(t)
v = T.Record.__new__(T.Record); v.__setstate__(r.__getstate__()); assert v == r and hash(v) == hash(r)
f = T.Function(T.int8, T.int16)
assert hash(f) == hash(T.Function(T.int8, T.int16)) and f != T.Function(T.int16, T.int8)
assert hash(T.Map(T.int8, T.int16)) == hash(T.Map(T.DataShape(T.int8), T.int16)) 
assert T.Units('m', T.DataShape(T.int8)) != T.Units('m', T.DataShape(T.int16))
assert T.Tuple([T.int8]) != T.Record([('a', T.int8)])
assert T.Option(T.int8) != T.DataShape(T.int8) 
assert T.String(3) != T.Fixed(3) and T.Time('UTC') != T.DateTime('UTC') and T.TimeDelta('s') != T.DateTime('s')
""",
(C, "    def info(self):\n        return type(self), self.parameters", "    def info(self):\n        # A time zone is all there is to a type that has one\n        return (('tz',) if 'tz' in getattr(self, '__slots__', ()) and self.tz\n                else type(self)), self.parameters"))
seed('c08-mul-nested', 'C08', 'a dimension multiplied onto an option of an array', 'the dimensions of an option are drawn out of it',
"""
from datashape import dshape, Option, DataShape, Fixed, int32
o = Option(dshape('3 * int32'))
assert (Fixed(2) * o) == dshape('2 * ?3 * int32') == DataShape(Fixed(2), o)
assert (Fixed(2) * dshape('?3 * int32')).shape == (Fixed(2),)
""",
(C, "        return DataShape(self, other)", "        drawn = isinstance(other, Option) and other.shape\n        return DataShape(self, *(drawn + (Option(other.ty.measure),) if drawn\n                                 else (other,)))"))
seed('c20-contains-identity', 'C20', 'a numeric type that was copied or read from a pickle', 'a type set contains the objects it was made of only',
"""
import copy, pickle
from datashape import int8, float32
from datashape.typesets import integral, maxtype, scalar, supertype
assert int8 in integral
c = copy.deepcopy(int8); assert c == int8 and c in integral and maxtype(c) == maxtype(int8)
p = pickle.loads(pickle.dumps(float32)); assert p in scalar and supertype(p) == supertype(float32)
""",
(TS, "        return val in self._set", "        return any(val is member for member in self._order)"))
seed('c20-len-union', 'C20', 'the union of type sets that have types in common', 'a type set counts a type as often as it was given',
"""
from datashape.typesets import TypeSet, signed, unsigned, integral
from datashape import int8, int16
assert len(signed) == 4 and len(integral) == 8 and len(signed | unsigned) == 8
assert len(signed | integral) == 8 == len(set(signed | integral))
assert len(TypeSet(int8, int8, int16)) == 2
""",
(TS, "        return len(self._set)", "        return len(self._order)"))
seed('c28-same-name', 'C28', 'two classes of users that have the same name', 'types of different classes with the same name are taken for equal',
"""
from datashape import coretypes as T
def make(base):
    class Size(base):
        cls = T.MEASURE
        __slots__ = 'n',
        def __init__(self, n): self.n = n
    return Size
A, B = make(T.Unit), make(T.Mono)
assert A(3) == A(3) != A(4)
assert A(3) != B(3) and T.DataShape(2, A(3)) != T.DataShape(2, B(3))
""",
(C, "        return type(self), self.parameters", "        return type(self).__name__, self.parameters"))
seed('c10-tail-index', 'C10', 'a field given by a position counted from the end', 'a field counted from the end is counted from the start',
"""
from datashape import dshape
ds = dshape('5 * 3 * {a: int8, b: ?int16}')
assert ds.subshape[0, 1, 'b'] == dshape('?int16').measure or str(ds.subshape[0, 1, 'b']) == '?int16'
assert str(ds.subshape[1:4, 2, ['b', 'a']]) == '3 * {b: ?int16, a: int8}'
assert str(ds.subshape[[0, 0], [1, 2, 0], 'a']) == '2 * 3 * int8'
assert str(ds.subshape[-1, 0:2, -1]) == '2 * ?int16'
assert str(dshape('{a: int8, b: int16, c: int32}').subshape[-1]) == 'int32'
assert str(ds.subshape[0, 0, -2]) == 'int8'
""",
(C, "            return self[0].parameters[0][index][1]", "            return self[0].parameters[0][abs(index)][1]"))
seed('c10-list-field-order', 'C10', 'a list of field names in another order than the record', 'fields are selected in the order of the record',
"""
from datashape import dshape
r = dshape('{a: int8, b: int16, c: int32}')
assert str(r.subshape[['a', 'c']]) == '{a: int8, c: int32}'
assert str(r.subshape[['c', 'a']]) == '{c: int32, a: int8}'
assert str(dshape('3 * {a: int8, b: int16}').subshape[:, ['b', 'a']]) == '3 * {b: int16, a: int8}'
""",
(C, "            return DataShape(Record([rec.parameters[0][i] for i in index]))", "            return DataShape(Record([rec.parameters[0][i] for i in (\n                sorted(index) if min(index or [0]) >= 0 else index)]))"))
seed('c12-named-rows', 'C12', 'rows that are named tuples, with a missing value in one of them', 'rows are told by their very class',
"""
from collections import namedtuple
from datashape import discover
P = namedtuple('P', 'x y')
assert discover(P(1, 'text')) == discover((1, 'text')) and discover([P(1, 'text')] * 2) == discover([(1, 'text')] * 2)
assert discover([(1, 'text'), (2, None)]) == discover([P(1, 'text'), P(2, None)])
""",
(D, "    if (all(isinstance(item, (tuple, list)) for item in seq) and", "    if (set(map(type, seq)) <= {tuple, list} and"))
seed('c12-derived-strings', 'C12', 'an array of objects which are of a class derived from that of text', 'text in arrays of objects is told by its very class',
"""
import numpy as np
from datashape import discover
class S(str): pass
a = np.array(['a', 'b'], dtype=object); b = np.array([S('a'), 'b'], dtype=object)
assert str(discover(a)) == '2 * string' == str(discover(b))
""",
(D, "    return all(isinstance(i, _strtypes) for i in x.flat[:5].tolist())", "    return all(type(i) in _strtypes for i in x.flat[:5].tolist())"))
seed('c13-edge-delta', 'C13', 'a column of time differences and text', 'time differences have no common type with text',
"""
from datetime import timedelta
from datashape import discover
assert str(discover([(1, 'x'), (2, 'x')])) == '2 * (int64, string)'
assert str(discover([(timedelta(1), 1), ('text', 2)])) == '2 * (string, int64)'
""",
(D, "    (string, timedelta_),\n", ""))
seed('c14-identifier', 'C14', 'a date spelt without anything between a month and a number', 'everything that could be a name is a word',
"""
from datashape import discover, string, date_, datetime_
assert discover('monday') == string and discover('Jan 1 2014') == date_ and discover('a_b') == string
assert discover('Jan1') == date_ and discover('May2014') == date_
""",
(D, "    if s.isalpha() or s.isspace():", "    if s.isidentifier() or s.isspace():"))
seed('c16-generic', 'C16', 'a value that is a NumPy scalar', 'values that are NumPy scalars are of no type',
"""
import numpy as np
from datashape import validate
assert validate('int32', 1) == validate('int32', 1)
assert validate('int32', np.int32(1)) and validate('{a: float32}', {'a': np.float32(1)}) and not validate('int32', np.int64(1))
""",
(V, "basetypes = np.generic, int, float, str, date, time, datetime", "basetypes = int, float, str, date, time, datetime"))
seed('c16-empty-var', 'C16', 'no elements where there may be any number', 'a variable dimension has at least one element',
"""
from datashape import validate
assert validate('var * int64', [1, 2]) and validate('0 * int64', []) and not validate('1 * int64', [])
assert validate('var * int64', []) and validate('2 * var * int64', [[], [1]]) and validate('{a: var * string}', {'a': ()})
""",
(V, "       and (isinstance(head, Var) or int(head) == len(value))", "       and (isinstance(head, Var) and len(value) > 0 or head == len(value))"))
# ---------------------------------------------------------------- C29
STEPS = '''
import sys
from datashape import coretypes as T
def steps(f):
    n = [0]
    def local(frame, event, arg):
        n[0] += 1
        if n[0] > 300000: raise SystemExit('too many steps')
        return local
    sys.settrace(local)
    try: f()
    finally: sys.settrace(None)
'''
seed('c29-dim-args', 'C29', 'type constructors nested in one another', 'the arguments of a constructor are read once for a dimension and once for a type',
STEPS + """
from datashape import dshape
s = 'int8'
for k in range(20): s = 'option[%s]' % s
steps(lambda: dshape(s))
""",
(P, "                dim_constr = self.sym.dim_constr.get(name)\n                if dim_constr is None:\n                    self.pos = saved_pos\n                    return None\n                self.advance_tok()\n                args = self.parse_type_arg_list()\n                if",
    "                self.advance_tok()\n                args = self.parse_type_arg_list()\n                dim_constr = self.sym.dim_constr.get(name)\n                if dim_constr is None:\n                    self.pos = saved_pos\n                    return None\n                if"))
seed('c29-print-twice', 'C29', 'printing tuples nested in one another', 'the items of a tuple are printed once on a line of their own and once for a single line',
STEPS + """
from datashape import dshape, pprint
s = 'int8'
for k in range(20): s = '(%s)' % s
d = dshape(s)
steps(lambda: pprint(d))
""",
(C, "        short = '(%s)' % ', '.join(typs)", "        short = '(%s)' % ', '.join(pprint(typ, 1 << 30) for typ in ds.dshapes)"))
seed('c29-search-twice', 'C29', 'searching records nested in one another', 'a record is searched through its types and through its parameters',
STEPS + """
from datashape import dshape, has_var_dim
s = 'int8'
for k in range(20): s = '{a: %s}' % s
d = dshape(s)
steps(lambda: has_var_dim(d))
""",
(U, "        return any(has(typ, t) for t in ds.types)", "        if any(has(typ, t) for t in ds.types):\n            return True"))
# ------------------------------------------------- more of several properties
seed('c15-units-order', 'C15', 'time differences of two units', 'of two time differences the left one wins',
"""
from datashape import promote, TimeDelta
a, b = TimeDelta('s'), TimeDelta('ms')
assert promote(a, b) == promote(b, a), (promote(a, b), promote(b, a))
""",
(PM, "        np_res_type = np.result_type(datashape.to_numpy_dtype(left),\n                                     datashape.to_numpy_dtype(right))",
    "        np_types = [datashape.to_numpy_dtype(left), datashape.to_numpy_dtype(right)]\n        np_res_type = (np_types[0] if all(t.kind == 'm' for t in np_types)\n                       else np.result_type(*np_types))"))
seed('c17-fixed-nested', 'C17', 'a record in a field of a record', 'only fields that are arrays are looked at',
"""
from datashape.predicates import isfixed
assert not isfixed('{a: 2 * {b: var * int8}}') and not isfixed('{a: var * int8}') and isfixed('{a: {b: 2 * int8}}')
assert not isfixed('{a: {b: var * int8}}') and not isfixed('2 * {a: int8, b: {b: 3 * var * int8}}')
""",
(PR, "        return all(map(isfixed, ds[0].types))", "        return all(isfixed(ty) for ty in ds[0].types if len(dshape(ty)) > 1)"))
seed('c18-collect-same', 'C18', 'a function with two arguments of one type', 'terms that are equal within a function are found once',
"""
from datashape import dshape, Unit
from datashape.util import collect
unit = lambda t: isinstance(t, Unit)
assert len(list(collect(unit, dshape('(int8, int16) -> int32')))) == 3 and len(list(collect(unit, dshape('(int8, int8)')))) == 2
assert len(list(collect(unit, dshape('(int8, int8) -> int8')))) == 3
""",
(U, "        return chain.from_iterable(collect(pred, typ) for typ in expr.parameters)",
    "        typs = expr.parameters if isinstance(expr, coretypes.DataShape) else dict.fromkeys(expr.parameters)\n        return chain.from_iterable(collect(pred, typ) for typ in typs)"))
seed('c18-tuple-scalar', 'C18', 'an item of a tuple which has no dimensions of its own', 'items of tuples without dimensions are skipped',
"""
from datashape import dshape, has_var_dim
assert has_var_dim(dshape('(int8, var * int8)')) and has_var_dim(dshape('{a: {b: var * int8}}')) and not has_var_dim(dshape('(int8, {a: int8})'))
assert has_var_dim(dshape('(int8, {a: var * int8})')) and has_var_dim(dshape('3 * ((var * int8, int8), int8)'))
""",
(U, "        return any(has(typ, item) for item in ds)", "        return any(has(typ, item) for item in ds\n                   if not isinstance(item, coretypes.DataShape) or len(item) > 1)"))
seed('c11-cat-zero', 'C11', 'a first datashape of length zero', 'nothing is added to a length of zero',
"""
from datashape import dshapes, cat_dshapes, dshape
assert cat_dshapes(dshapes('2 * int8', '0 * int8', '3 * int8')) == dshape('5 * int8')
assert cat_dshapes(dshapes('0 * int8', '3 * int8')) == dshape('3 * int8')
""",
(U, "        outer_dim_size += operator.index(ds[0])", "        outer_dim_size = outer_dim_size and outer_dim_size + operator.index(ds[0])"))
seed('c22-search-kind', 'C22', 'one thread looks for variable dimensions while another looks for ellipses', 'what is looked for is kept in the module',
"""
import threading, sys
from datashape import dshape, has_var_dim, has_ellipsis
sys.setswitchinterval(1e-6)
d = dshape('(int8, int8, {a: int8}, 3 * {b: (int8, int8, var * int8)})')
bad, stop = [], []
def work(f, want):
    for _ in range(20000):
        if stop: return
        if f(d) is not want:
            bad.append(f); stop.append(1)
ts = [threading.Thread(target=work, args=a) for a in [(has_var_dim, True), (has_ellipsis, False)] * 2]
for t in ts: t.start()
for t in ts: t.join()
assert not bad
""",
(U, "    return has((coretypes.Ellipsis, coretypes.Var), ds)", "    _wanted[:] = [coretypes.Ellipsis, coretypes.Var]\n    return has(_wanted, ds)\n\n\n_wanted = []"),
(U, "    if isinstance(ds, typ):", "    if isinstance(ds, tuple(typ)):"),
(U, "    return has(coretypes.Ellipsis, ds)", "    _wanted[:] = [coretypes.Ellipsis]\n    return has(_wanted, ds)"))
seed('c25-categories-dup', 'C25', 'a categorical in which a category occurs twice', 'repeated categories are dropped in the order of a set',
"""
import subprocess
code = "from datashape import Categorical, string; print(Categorical(['ab', 'cd', 'ef', 'gh', 'ab'], string))"
outs = set(subprocess.check_output([sys.executable, '-W', 'ignore', '-c', 'import sys; sys.path.insert(0, %r); %s' % (os.getcwd(), code)],
                                   env=dict(os.environ, PYTHONHASHSEED=str(k), PYTHONDONTWRITEBYTECODE='1')) for k in range(6))
assert len(outs) == 1, outs
""",
(C, "        self.categories = tuple(categories)", "        categories = tuple(categories)\n        if len(set(categories)) != len(categories):\n            categories = tuple(set(categories))\n        self.categories = categories"))
seed('c05-two-comments', 'C05', 'comments on four lines one after the other', 'only three comments are skipped between two tokens',
"""
from datashape import dshape
assert dshape('3 * # one\\n int8') == dshape(' \\n # one\\n 3 * int8 # two') == dshape('3 * int8')
assert dshape('3 * # one\\n # two\\n # three\\n#\\n int8') == dshape('3 * int8')
""",
(L, "_whitespace = r'(?:\\s|(?:#.*$))*'", "_whitespace = r'\\s*(?:#.*$\\s*){0,3}'"))
seed('c05-name-other', 'C05', 'a bare field name of an underscore followed by digits', 'names that start with an underscore have no digits',
"""
from datashape import dshape
assert dshape('{_a: int8}') == dshape("{'_a': int8}")
assert dshape('{_1: int8, _a2: int8}') == dshape("{'_1': int8, '_a2': int8}")
""",
(L, "r'_[a-zA-Z0-9_]*'", "r'_[a-zA-Z_]*'"))
