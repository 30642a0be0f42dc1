#!/usr/bin/env python3
"""Writes properties.jsonl (run from /verif: python3 tools/props.py)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['datashape/' + f for f in files],
                          mechanism=[dict(name=n, where='datashape/' + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where='datashape/' + w) for n, m, w in state]
    P.append(d)


p('C01', 'Printing a type and reading the text back gives the same type',
  'For every datashape built from any combination of dimensions, data types, records, tuples, options, '
  'functions, maps, units and categoricals, the printed text, the pretty-printed text at every line width, and '
  'the repr of datashapes, records and tuples read back as an equal type with the same structure in every '
  'attribute. This holds for every field name, unit, time zone and category text whatever characters it contains, '
  'and for every number. Named datashapes and categoricals of more than ten categories, which are abbreviated, are '
  'excluded.',
  ['inputs', 'programs'],
  'every type term up to a nesting depth, every code point and short string of awkward characters in every '
  'position that holds text, every print width',
  'the printer chooses between forms by nesting, by width and by character; tests print a few dozen types',
  ['coretypes.py', 'internal_utils.py', 'parser.py', 'lexer.py'],
  [('str of each type', 'coretypes.py'), ('pprint', 'coretypes.py'), ('quote_string', 'internal_utils.py'),
   ('parse', 'parser.py')],
  ['str(ds)', 'repr(ds)', 'pprint(ds, width)', 'dshape(text)'])

p('C02', 'The reader accepts exactly the documented grammar with the prescribed meaning',
  'For every sequence of tokens, the reader accepts the text if and only if the documented grammar derives it, '
  'and the value it builds is the one the derivation prescribes: dimensions in order, fields in order, arguments '
  'of type constructors by position and by keyword, a leading question mark applying to everything after it. '
  'White space, line breaks and comments between tokens do not matter.',
  ['inputs'],
  'every token sequence up to a length over the whole token alphabet; every derivation of the grammar up to a '
  'larger size, and every one-token deletion, insertion, replacement or swap of those',
  'the reader is a backtracking recursive descent with speculative dimension parsing; a slip shows only on '
  'particular neighbouring constructs, and tests hold a few hundred hand-picked strings',
  ['parser.py', 'lexer.py', 'type_symbol_table.py', 'util/__init__.py'],
  [('DataShapeParser', 'parser.py'), ('backtracking position', 'parser.py'), ('symbol tables', 'type_symbol_table.py')],
  ['dshape(text)', 'parser.parse(text, sym)'],
  [('token position', 'index the parser rewinds on a failed alternative', 'parser.py')])

p('C03', 'Malformed text is refused cleanly and its error points at the right place',
  'For every string that nests brackets no deeper than the interpreter can recurse, reading it terminates and '
  'either gives a datashape, which can itself be printed and read again, or raises one of the documented errors: a '
  'syntax error, or a type, value or not-implemented error for bad constructor arguments or ill-formed types. '
  'The line number, column, source line and pointer of a syntax error all describe one position, which is the '
  'start of a token, the end of the last token or the character that begins no token, and all the tokens before '
  'it are the beginning of some valid text.',
  ['inputs'],
  'every string up to a length over an alphabet of significant characters, every truncation and every '
  'one-character change of valid texts, every argument list of every type constructor',
  'error paths are taken by inputs nobody writes down; positions across lines are only tested on a few texts',
  ['error.py', 'parser.py', 'lexer.py', 'coretypes.py'],
  [('DataShapeSyntaxError', 'error.py'), ('raise_error', 'parser.py'), ('lex', 'lexer.py')],
  ['dshape(text)', 'DataShapeSyntaxError.lexpos/lineno/line/col_offset/str'])

p('C04', 'The lexer splits every text into the tokens the grammar defines',
  'For every string, the tokens are the longest matches of the token classes from left to right, with spans that '
  'are increasing, cover everything but white space and comments, and contain exactly the source text of the '
  'token. Integers, booleans and string literals have exactly the value the literal denotes, and a name that '
  'merely begins with a keyword is a name. Text that no token class matches is refused at that position.',
  ['inputs'],
  'every string up to a length over an alphabet with a character of every class, and every string literal body '
  'up to a length over quotes, escapes, line breaks and exotic characters',
  'token classes overlap (booleans and names, integers and zeros, quotes and escapes); tests try one example of each',
  ['lexer.py'], [('lex', 'lexer.py'), ('token table', 'lexer.py')], ['lexer.lex(text)'])

p('C05', 'Every way of writing a type means the same type',
  'For every datashape, each documented spelling of each of its parts (question mark or option constructor, braces '
  'or struct, parentheses or tuple or funcproto, aliases such as int and real, positional or keyword arguments, '
  'quoted or bare field names, optional trailing commas, any white space and comments) reads as an equal type with '
  'an equal hash and the same printed text.',
  ['inputs', 'programs'],
  'every type term up to a nesting depth, and at every node every choice of spelling up to a number of deviations '
  'from the plain one',
  'each alias is served by its own code path in the parser and symbol table, and combinations are never all tested',
  ['parser.py', 'type_symbol_table.py', 'coretypes.py'],
  [('type constructors', 'type_symbol_table.py'), ('syntactic sugar', 'parser.py')], ['dshape(text)', 'ds == ds', 'hash(ds)'])

p('C06', 'Equality of types is structural, an equivalence, and agrees with hashing',
  'For every two types, they are equal exactly when their structure is: same dimensions in order, same measure '
  'with the same parameters, field names and order; inequality is the negation, comparison never raises, and equal '
  'types have equal hashes, so sets and dictionaries of types behave. Types obtained by different routes '
  '(constructors, text, pickling, composition) compare the same way, a fixed dimension equals the integer of its '
  'length, and no type equals an unrelated object.',
  ['inputs'],
  'every ordered pair of types from a set closed under all type constructors up to a size, each obtained by '
  'several routes, and every triple of a smaller set',
  'equality is defined per class with slot comparison, and pairs grow quadratically beyond any test list',
  ['coretypes.py'], [('Mono.__eq__/__hash__', 'coretypes.py'), ('Option.__eq__', 'coretypes.py'), ('Fixed.__eq__', 'coretypes.py')],
  ['a == b', 'a != b', 'hash(a)', 'set / dict membership'])

p('C07', 'Types survive pickling, copying and reconstruction unchanged',
  'For every type, pickling with every protocol, shallow copying, deep copying, and, for all but the native types '
  'and named datashapes, calling the class again with the parameters of the type all give an equal type with the same structure, hash and printed text, and leave the '
  'original unchanged. This also holds after any sequence of such operations, for several types sharing '
  'parts pickled together, and when the pickle is read by another process.',
  ['inputs', 'histories'],
  'every type term up to a nesting depth times every sequence of copying operations up to a length',
  'each class has its own state handling and some (names, options, units, categoricals, null) are special',
  ['coretypes.py'], [('Mono.__reduce__/_slotted', 'coretypes.py'), ('parameters', 'coretypes.py')],
  ['pickle.loads(pickle.dumps(ds, n))', 'copy.copy', 'copy.deepcopy', 'type(ds)(*ds.parameters)'])

p('C08', 'All ways of composing dimensions and types agree and stay flat',
  'For every list of dimensions and every type, multiplying the dimensions one after another onto the type, passing them to the '
  'datashape constructor, passing a list, nesting datashapes at the end, and reading the text give equal '
  'datashapes whose dimensions are exactly that list followed by those of the type. Ill-formed compositions (a type '
  'where a dimension belongs, a dimension where a type belongs, more than one ellipsis in one array) are refused '
  'with a type error wherever they occur, at every depth; so is the product of two dimensions.',
  ['inputs', 'programs'],
  'every sequence of up to four dimensions and every type of a closed set, with every grouping of every '
  'composition operator, and every misplacement of one component at every position',
  'the number of groupings and operand kinds multiplies; tests compose two or three',
  ['coretypes.py', 'validation.py', 'util/__init__.py'],
  [('DataShape.__init__', 'coretypes.py'), ('Mono.__mul__/__rmul__', 'coretypes.py'), ('validate', 'validation.py')],
  ['DataShape(...)', 'a * b', 'dshape(...)'])

p('C09', 'Conversion to and from NumPy keeps type and shape',
  'For every NumPy dtype with a datashape counterpart (numbers, booleans, strings of length one or more, dates and '
  'times, objects, nested and multi-dimensional structured dtypes) and every shape, converting to a datashape keeps the '
  'shape, kind, width and field layout, and converting back gives the same shape and an equivalent dtype. '
  'Conversely every datashape NumPy can represent converts and comes back as an equal datashape up to what '
  'NumPy cannot express, and one it cannot represent raises a type error or a documented not-implemented error '
  'rather than giving a wrong answer. Maps have no agreed counterpart and are excluded.',
  ['inputs'],
  'every dtype built from all scalar kinds, widths, units and lengths by structuring and sub-arraying up to a '
  'depth, times every shape up to rank three; every type term up to a nesting depth',
  'the product of kinds, widths, units, nesting and shapes is far larger than the tables in the tests',
  ['coretypes.py'], [('to_numpy/to_numpy_dtype', 'coretypes.py'), ('from_numpy', 'coretypes.py'), ('CType.from_numpy_dtype', 'coretypes.py')],
  ['to_numpy(ds)', 'to_numpy_dtype(ds)', 'from_numpy(shape, dtype)', 'Record.to_numpy_dtype'])

p('C10', 'Indexing a datashape predicts the datashape of the indexed array',
  'For every datashape and every index (integers, slices with any start, stop and step, new axes, lists of positions, '
  'field names, lists of names, and tuples of these), the resulting datashape has the dimensions and fields that '
  'indexing an array of that shape would give, each list selecting along its own dimension and integer positions '
  'not being compared with the length. A variable dimension stays variable unless the slice has a non-negative stop '
  'and start and a positive step, which give it the length of the slice. An index with too many parts, naming no '
  'field, of an unsupported kind or with a step of zero raises an index, type, value or key error.',
  ['inputs', 'programs'],
  'every slice whose start, stop and step range over a symmetric interval and over values beyond the length, '
  'every dimension length up to a bound, and every tuple of index parts up to rank',
  'slices alone have hundreds of combinations per length and their corner cases are the sign and clipping rules',
  ['coretypes.py'], [('subshape', 'coretypes.py'), ('_subshape', 'coretypes.py')], ['ds.subshape[index]'])

p('C11', 'A datashape decomposes consistently into dimensions and measure',
  'For every datashape, the shape followed by the measure are its components, length and indexing and iteration '
  'see exactly these, dropping leading dimensions leaves the datashape of the rest for every count, and '
  'recomposing gives an equal datashape. Concatenating datashapes adds the leading fixed dimensions and '
  'keeps the rest, and is refused when anything after the first dimension differs or the first is not fixed.',
  ['inputs'],
  'every sequence of up to four dimensions over all dimension kinds times a closed set of measures; every split '
  'of every list of datashapes up to a length',
  'accessors are each tested once on a typical value; consistency between them is a law over all values',
  ['coretypes.py', 'util/__init__.py'],
  [('DataShape.shape/measure/subarray/subshape', 'coretypes.py'), ('cat_dshapes', 'util/__init__.py')],
  ['ds.shape', 'ds.measure', 'ds.subarray(n)', 'ds[i]', 'len(ds)', 'cat_dshapes(list)'])

p('C12', 'The datashape discovered for data describes that data',
  'For every value made of Python scalars (integers within 64 bits), strings, missing values, lists, tuples, '
  'dictionaries with text keys, sets of one kind of value and arrays (of objects: of one kind of object), '
  'discovery returns a datashape that the value inhabits: dimensions count the elements at every level or are '
  'variable where lengths differ, every field present in the data is present in the type, every scalar is of a type '
  'its value can be represented in, and a place where a value may be missing is optional. It never returns '
  'anything but a datashape or measure for such a value, and never fails on it. An instance of a class derived from '
  'one of these is discovered like one of the class itself. An object that is none of these is refused, unless it has a shape and a dtype, when it is discovered like the array they describe.',
  ['inputs', 'programs'],
  'every nested value up to a depth and width over one scalar of each kind',
  'discovery tries several unification strategies in order, and which one fires depends on the whole value',
  ['discovery.py'], [('discover', 'discovery.py'), ('unite_base', 'discovery.py'), ('unite_merge_dimensions', 'discovery.py')],
  ['discover(value)'])

p('C13', 'Discovery unites types independently of the order of the data',
  'For every collection of rows, permuting the rows or writing them as lists or tuples permutes or keeps the '
  'discovered type but never changes the element type of homogeneous columns, repeating rows only changes the '
  'length, adding a missing value turns a column type into its option and nothing else, and a record lacking '
  'a field makes that field optional. The common type of the values of a column is the least type in the '
  'documented order that represents all of them; values that have none give a tuple of their types, which '
  'is permuted with them.',
  ['inputs'],
  'every multiset of up to four column values of all scalar kinds in every order, every table of up to three '
  'rows and two columns, every set of records over up to three keys',
  'the least common type is found through a topologically sorted graph and missing values are split off at '
  'several levels; tests show single orders',
  ['discovery.py', 'internal_utils.py'],
  [('lowest_common_dshape', 'discovery.py'), ('edges', 'discovery.py'), ('_toposort', 'internal_utils.py')], ['discover(rows)'])

p('C14', 'Strings are classified as the value they spell',
  'For every string, discovery classifies it as an integer, float, boolean, time, date, date and time, time '
  'difference, missing value or plain text exactly when it spells such a value in the documented order of '
  'preference; numbers and booleans in text are classified like the values themselves, and words are never dates. '
  'Every string has a classification and it depends on nothing but the string.',
  ['inputs'],
  'every string up to a length over an alphabet of digits, signs, separators, letters and white space, and '
  'every spelling of times, dates and differences over component tables',
  'the cascade of parsers overlaps in ways only particular strings show',
  ['discovery.py'], [('discover for strings', 'discovery.py'), ('timeparse/deltaparse', 'discovery.py')], ['discover(text)'])

p('C15', 'Promotion of two types is symmetric and NumPy compatible',
  'For every two scalar types, promotion gives the same result in both orders, the type itself for equal types, '
  'what NumPy would promote the same dtypes to for numeric types, and text of no fixed length for two different '
  'texts of no fixed length. The result for two different types is '
  'optional exactly when one of the operands is optional, unless option promotion was turned off. '
  'It is the same whether or not the operands come wrapped in a datashape.',
  ['inputs'],
  'every ordered pair and triple of scalar types times option wrapping of either side times datashape wrapping '
  'times the option flag',
  'pairs of types times wrappings are hundreds of cases with one rule',
  ['promote.py'], [('promote', 'promote.py'), ('optionify', 'promote.py')], ['promote(a, b)', 'optionify(a, b, c)'])

p('C16', 'Validation accepts exactly the values of a schema',
  'For every schema made of native types, text, dates and times, records, fixed and variable dimensions and '
  'alternatives, and every Python value, validation is true exactly when the value has the structure of the schema: '
  'a Python scalar has the one type of its class, lengths match fixed dimensions, every element and '
  'every field validates, records are given as dictionaries or as sequences of the same length. It agrees for '
  'schemas given as text or as types, and does not depend on other fields or elements. A type of any kind is a subschema '
  'of itself, and of no different type.',
  ['inputs', 'programs'],
  'every schema up to a nesting depth against every value up to a nesting depth, both ways matched and mismatched',
  'validation dispatches on pairs of schema and value classes; the product is much larger than the test table',
  ['user.py'], [('validate', 'user.py'), ('issubschema', 'user.py')], ['validate(schema, value)', 'issubschema(a, b)'])

p('C17', 'Type predicates depend only on what they are documented to depend on',
  'For every datashape, the predicates for scalar, record, numeric, real, boolean and date-like depend only on the '
  'measure with an option removed, collection and tabular only on the number of dimensions and the measure, '
  'fixed only on the dimensions, and homogeneous only on the number of distinct data types; each answers '
  'what the structure prescribes and is the same for text and for the type it denotes. None of them fails on any '
  'datashape. Dimensions that are type variables, and whether json and time differences are numbers, are left open.',
  ['inputs'],
  'every type term up to a nesting depth times prefixes of up to two dimensions of every kind times option wrapping',
  'each predicate is tested on its docstring examples; their independence of the rest is a law',
  ['predicates.py', 'util/__init__.py', 'typesets.py'],
  [('is* predicates', 'predicates.py'), ('collect', 'util/__init__.py')],
  ['isscalar', 'isrecord', 'isnumeric', 'isreal', 'isboolean', 'isdatelike', 'iscollection', 'istabular', 'isfixed', 'ishomogeneous'])

p('C18', 'Variable dimensions and ellipses are found wherever they occur',
  'For every datashape, the test for variable dimensions is true exactly when a variable dimension or an ellipsis '
  'occurs anywhere inside it, through records, tuples, options, functions, maps and units at every depth, and the '
  'test for ellipses exactly when an ellipsis does. A datashape reported to be fixed contains neither. '
  'Collecting terms finds each matching term exactly once and in order, '
  'the name of an ellipsis not being a term.',
  ['inputs'],
  'every type term up to a nesting depth with a variable dimension or ellipsis planted at every position',
  'the search must reach every kind of container; one container not descended into is invisible to '
  'tests that do not nest in it',
  ['util/__init__.py', 'predicates.py'],
  [('has_var_dim/has_ellipsis', 'util/__init__.py'), ('collect', 'util/__init__.py'), ('isfixed', 'predicates.py')],
  ['has_var_dim(ds)', 'has_ellipsis(ds)', 'isfixed(ds)', 'util.collect(pred, ds)'])

p('C19', 'The equality assertion fails exactly when the types differ in what is checked',
  'For every two datashapes, the assertion passes exactly when the types are equal apart from the aspects whose '
  'checking was turned off: time zones, time units, string encoding or length, dimensions, field order. The flags reach through arrays, '
  'records, tuples, functions, options and units; inside maps and categoricals only full equality is checked. When it '
  'fails it raises an assertion error and nothing else, whatever the two types are, and it never depends on '
  'the order of its arguments.',
  ['inputs', 'configurations'],
  'every ordered pair of a set of types closed under single changes at every position, times every combination of flags',
  'flags must be carried through every level of nesting; tests check a flag at one level',
  ['util/testing.py'], [('assert_dshape_equal', 'util/testing.py')], ['assert_dshape_equal(a, b, **flags)'])

p('C20', 'Type sets, supertypes and maximal types are consistent',
  'For every numeric type, its supertype is the set it belongs to, its maximal type is the widest member of that set '
  'and itself its own maximal type, and options are carried through; every other type is refused, with an assertion error by the '
  'supertype and a type error by the maximal type, except that decimals and time differences are their own maximal '
  'types. Membership, union, iteration and length of type sets agree with those of the sets of their types, '
  'two type sets are equal exactly when they have the same name and the same types in the same order, and '
  'unions of the named sets give the documented hierarchy.',
  ['inputs'],
  'every type of a closed set, optional or not and wrapped in a datashape or not; every pair and every '
  'union of subsets of a base set',
  'the tables are maintained by hand per type; a test lists a few members',
  ['typesets.py'], [('TypeSet', 'typesets.py'), ('supertype/maxtype', 'typesets.py')], ['maxtype(t)', 'supertype(t)', 't in typeset', 'matches_typeset'])

p('C21', 'Types are values: using them changes nothing and history does not matter',
  'For every sequence of public operations (reading, printing, comparing, indexing, converting, promoting, '
  'discovering, pickling, failing with an error), no existing type and no argument changes in any observable '
  'way, and each operation returns the same result as in a fresh interpreter state.',
  ['histories'],
  'every sequence of up to three operations over an alphabet with one operation per code path that touches shared '
  'state or caches, including failing operations',
  'hidden caches, aliased argument lists and global tables only show in particular sequences of calls',
  ['coretypes.py', 'parser.py', 'type_symbol_table.py', 'discovery.py', 'util/__init__.py', 'promote.py', 'user.py'],
  [('cached parameters and hashes', 'coretypes.py'), ('symbol tables', 'type_symbol_table.py'), ('dispatch caches', 'dispatch.py')],
  ['all public functions'],
  [('registry', 'named types', 'coretypes.py'), ('slots of types', 'parameters of each type object', 'coretypes.py')])

p('C22', 'Concurrent use from several threads gives the same results as sequential use',
  'For every interleaving of two threads that read, print, hash, compare, convert, discover and validate '
  'datashapes, also the same type objects and for the first time, every call returns what it returns when run '
  'alone, and no call fails or blocks.',
  ['schedules'],
  'every interleaving, at the granularity of source lines of the library, of two threads of one operation each '
  'with a bounded number of preemptions',
  'a lazily filled cache or shared scratch state fails only under one particular preemption',
  ['coretypes.py', 'parser.py', 'lexer.py', 'discovery.py', 'type_symbol_table.py', 'dispatch.py'],
  [('parser and lexer objects', 'parser.py'), ('cached attributes of types', 'coretypes.py'), ('dispatch', 'dispatch.py')],
  ['dshape', 'str', 'hash', '==', 'discover', 'validate', 'to_numpy'],
  [('global symbol table', 'shared read-only tables', 'type_symbol_table.py')])

p('C23', 'Symbol tables and registries are isolated and protected',
  'For every sequence of definitions and lookups, a name in a symbol table means what was last put there and '
  'nothing else, tables are independent of each other and of the default table, a registered type, type set '
  'or named datashape keeps its meaning and an attempt to register another under the same name is refused '
  'without effect. Reading text against a table uses that table and only it.',
  ['histories', 'configurations'],
  'every sequence of up to four operations over two symbol tables, the type registry and the type set registry '
  'with two colliding names',
  'the state is shared globally by the whole process and its protection only matters in sequences of operations',
  ['type_symbol_table.py', 'typesets.py', 'coretypes.py', 'parser.py'],
  [('TypeSymbolTable', 'type_symbol_table.py'), ('TypesetRegistry', 'typesets.py'), ('Type registry', 'coretypes.py')],
  ['TypeSymbolTable', 'parse(text, sym)', 'Type.register', 'TypesetRegistry.register_typeset', 'DataShape(name=...)'],
  [('registries', 'process wide name tables', 'coretypes.py')])

p('C24', 'Records behave as ordered mappings from names to types',
  'For every list of fields, given as pairs, as a mapping or as text, a record has exactly these names and types in '
  'this order, looks each of them up by name, by index and by list of names, and has the same layout in text, '
  'in NumPy and in its parameters. Building it does not depend on or alter the containers it was built from, '
  'and a malformed field list is refused.',
  ['inputs'],
  'every list of up to four fields over names and types that collide in every way, in every order and container',
  'records are built by several routes (pairs, mappings, text, NumPy) and looked up in several ways that must agree',
  ['coretypes.py', 'parser.py'], [('Record', 'coretypes.py')],
  ['Record(fields)', 'rec.names', 'rec.types', 'rec.fields', 'rec.dict', 'rec[name]', 'ds.subshape[name]'])

p('C25', 'Results do not depend on the hash seed or on the interpreter process',
  'For every input, reading, printing, discovering, promoting and failing give the same result in every process, '
  'whatever the seed of string hashing and the order in which operations are first used; values whose own order '
  'depends on the seed, such as sets of mixed kinds, are excluded.',
  ['configurations', 'inputs'],
  'every operation of a closed alphabet under several hash seeds, each in a fresh process with the operations in '
  'different orders',
  'the type ordering used to unite types is computed from sets whose order depends on the hash seed of the process',
  ['discovery.py', 'internal_utils.py', 'coretypes.py', 'typesets.py'],
  [('_toposort', 'internal_utils.py'), ('edges', 'discovery.py')], ['digest of results across processes'])

p('C26', 'A failing equality assertion points at a place where the types differ',
  'For every two datashapes and every combination of flags for which the equality assertion fails, the path in its message '
  'is a chain of attributes and items that can be followed from both types, and leads to a smallest part in which they differ '
  'in something that is checked: a dimension, a parameter, or types of different kinds, numbers of dimensions, or numbers or '
  'names of fields. A message without a path means the types themselves differ in this way. This holds at every depth and for '
  'every field name.',
  ['inputs'],
  'every pair of types from sets closed under single changes at every position, every combination of flags',
  'each kind of type adds its own step to the path, and a step lost at one level is seen only when the difference lies below it',
  ['util/testing.py'],
  [('assert_dshape_equal', 'util/testing.py'), ('_fmt_path', 'util/testing.py')],
  ['the message of the AssertionError of assert_dshape_equal(a, b, **flags)'])

p('C27', 'Functions registered for a class answer for its instances and for nothing else',
  'For every history of registering discovery functions for classes that do not derive from lists, tuples or dictionaries, '
  'an instance is discovered as the function of the nearest of its classes that has one says, whether alone or inside lists, '
  'tuples, sets and mappings, where the answer is united with its neighbours like any other type; all other values are discovered '
  'as before. It does not matter by which of the two ways a function is registered, nor whether such values were discovered '
  'before. Functions registered for validating values of a class against types of a class are likewise used for these alone, '
  'within records, dimensions and alternatives.',
  ['histories', 'inputs'],
  'every history of up to three registrations over ten classes, two answers and two ways of registering, with and without '
  'discoveries in between; every answer in every place; every order of registering validation functions',
  'tests register one function for one class; caches and shortcuts for built-in values show only with other classes in other places',
  ['discovery.py', 'dispatch.py', 'user.py'],
  [('discover', 'discovery.py'), ('dispatch', 'dispatch.py'), ('validate', 'user.py')],
  ['discover.register(cls)(f)', '@dispatch(cls) def discover', 'discover(value)', 'validate.register', 'validate(schema, value)'],
  [('dispatchers', 'functions by class, with a cache of lookups', 'dispatch.py')])

p('C28', 'Types of classes defined by users are values like the built-in ones',
  'For every class of measures or dimensions derived from the base classes, with no parameters, named ones or positional ones, its '
  'types are equal exactly when they are of the same class with equal parameters, hash alike, survive pickling, copying and '
  'reconstruction, compose with dimensions and inside all other types as built-in types do, are refused where a type of their kind does not '
  'belong, print as their own text inside other types, which reads back when they are in the symbol table, are searched through their '
  'parameters, and are never taken for NumPy types. Defining a class names it in the registry and changes no other name.',
  ['inputs', 'programs'],
  'every type term up to a nesting depth with a type or dimension of thirteen such classes in it, every pair, every misplacement',
  'the base classes serve classes that tests do not define: with and without slots, with any number of parameters, of both kinds',
  ['coretypes.py', 'util/__init__.py', 'validation.py', 'parser.py'],
  [('Type', 'coretypes.py'), ('Mono', 'coretypes.py'), ('Unit', 'coretypes.py'), ('collect, has', 'util/__init__.py')],
  ['==', 'hash', 'pickle, copy', 'str(ds)', 'dshape(text)', 'DataShape(...)', 'Type.lookup_type'],
  [('Type._registry', 'names of classes and types', 'coretypes.py')])

p('C29', 'The work an operation does grows moderately with the size of its input',
  'For every way of nesting types or data in one another and every way of giving them more parts, doubling the depth or the number of '
  'parts multiplies the steps of each operation (reading, refusing, printing, comparing, hashing, pickling, copying, composing, searching, '
  'collecting, the predicates, converting, indexing, asserting, validating, discovering) by less than ten: no operation does exponential work, '
  'whatever its input is made of and whether it succeeds or fails. Discovering rows that have no common type, nested in themselves, is a known exception.',
  ['inputs', 'programs'],
  'every nesting with a period of up to three out of thirteen wrappers and every kind of breadth, each at doubling sizes, for each operation',
  'inputs of tests are shallow: work that doubles with each level goes unnoticed until the first deep input hangs',
  ['parser.py', 'lexer.py', 'coretypes.py', 'util/__init__.py', 'util/testing.py', 'discovery.py', 'predicates.py', 'validation.py', 'user.py'],
  [('parse', 'parser.py'), ('pprint', 'coretypes.py'), ('discover', 'discovery.py'), ('has, collect', 'util/__init__.py')],
  ['dshape(text)', 'str(ds)', 'pprint(ds, width)', '==', 'hash', 'pickle, copy', 'discover(data)', 'validate(schema, value)'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
