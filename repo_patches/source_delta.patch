From 01eb1bf32876c462fff63c0a45f1343dcc17cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 01/53] fix: do not swallow a dimension that is not followed by
 an asterisk

---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 2cd5080..b4151cb 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -166,6 +166,8 @@ class DataShapeParser(object):
                     self.pos = saved_pos
                     self.raise_error('Expected a dim or a dtype')
                 return coretypes.DataShape(dim, *dshape.parameters)
+            # Not a dimension after all, so do not swallow its tokens
+            self.pos = saved_pos
         # Try dtype
         dtype = self.parse_dtype()
         if dtype:
-- 
2.43.0


From 2db66248234c10e4732de466466f926a291ad887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 02/53] fix: a '?' that is not followed by a datashape is a
 syntax error

---
 datashape/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index b4151cb..e7d408e 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -143,6 +143,7 @@ class DataShapeParser(object):
                                               constructors[tok.id],
                                               saved_pos - 1)
                 return coretypes.DataShape(option(ds))
+            self.raise_error('Expected a datashape after "?"')
         else:
             return self.parse_datashape_nooption()
 
-- 
2.43.0


From 2797434dec69cbc0e379b0ec6c24e700e8600f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 03/53] fix: reject a trailing comma in a type constructor
 argument list

---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index e7d408e..d5e17b3 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -352,6 +352,8 @@ class DataShapeParser(object):
                                            'Expected another keyword argument, ' +
                                            'positional arguments cannot follow ' +
                                            'keyword arguments')
+        if args and kwargs is None:
+            self.raise_error('Expected another type constructor argument')
         return (args, dict(kwargs) if kwargs else {})
 
     def parse_type_arg(self):
-- 
2.43.0


From 81a4a3cd8bfc81270a29e17a0136ab8a31462088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 04/53] fix: a keyword argument may be named like a data type
 of the symbol table

---
 datashape/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index d5e17b3..6ca7e23 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -370,8 +370,13 @@ class DataShapeParser(object):
 
         Returns a type_arg value, or None.
         """
+        saved_pos = self.pos
         ds = self.parse_datashape()
         if ds is not None:
+            if self.tok.id == lexer.EQUAL:
+                # This was the name of a keyword argument
+                self.pos = saved_pos
+                return None
             return ds
         if self.tok.id in [lexer.INTEGER, lexer.STRING, lexer.BOOLEAN]:
             val = self.tok.val
-- 
2.43.0


From c30ed1e706c563593d756165f3a2cfa004bcfc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 05/53] fix: lex names that merely begin with True or False as
 names

---
 datashape/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index b3e1935..d88704d 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -21,7 +21,7 @@ def _str_val(s):
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-    ('BOOLEAN',    r'True|False', ast.literal_eval),
+    ('BOOLEAN',    r'(?:True|False)(?![a-zA-Z0-9_])', ast.literal_eval),
     ('NAME_LOWER', r'[a-z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_UPPER', r'[A-Z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_OTHER', r'_[a-zA-Z0-9_]*', lambda x : x),
-- 
2.43.0


From 1c91563da5df5f332dddfd8b7c07ac2c076bf300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 06/53] fix: decode string literals without the Python parser

A NUL character in a string literal escaped as a plain SyntaxError and a
lone surrogate as a UnicodeEncodeError.
---
 datashape/lexer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index d88704d..8158182 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -14,10 +14,19 @@ from . import error
 # where e.g. _tokens[NAME_LOWER-1] is the entry for NAME_LOWER
 __all__ = ['lex', 'Token']
 
+_escapes = {'b': u'\b', 'f': u'\f', 'n': u'\n', 'r': u'\r', 't': u'\t'}
+
+def _escape_val(m):
+    c = m.group(1)
+    if len(c) > 1:
+        return m.group(0).encode('ascii').decode('unicode_escape')
+    return _escapes.get(c, c)
+
 def _str_val(s):
-    # Use the Python parser via the ast module to parse the string,
-    # since the string_escape and unicode_escape codecs do the wrong thing
-    return ast.parse('u' + s).body[0].value.s
+    # Strip the quotes and substitute the escapes the STRING token allows.
+    # The Python parser cannot be used for this, since it refuses some of the
+    # characters (NUL, lone surrogates) that may appear between the quotes
+    return re.sub(r'\\(u[0-9a-fA-F]{4}|.)', _escape_val, s[1:-1])
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-- 
2.43.0


From 1f72f64417d3512705c570fea23d1c9571ca7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 07/53] fix: print names, units, time zones and categories as
 literals the lexer can read

---
 datashape/coretypes.py      | 15 ++++++++-------
 datashape/internal_utils.py | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index ea28b82..2361e32 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -25,7 +25,7 @@ from .py2help import (
     unicode,
     with_metaclass,
 )
-from .internal_utils import IndexCallable, isidentifier
+from .internal_utils import IndexCallable, isidentifier, quote_string
 
 
 # Classes of unit types.
@@ -238,7 +238,7 @@ class Time(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote_string(self.tz))
 
 
 class DateTime(Unit):
@@ -259,7 +259,7 @@ class DateTime(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote_string(self.tz))
 
     def to_numpy_dtype(self):
         return np.dtype('datetime64[us]')
@@ -338,9 +338,9 @@ class Units(Unit):
 
     def __str__(self):
         if self.tp == DataShape(float64):
-            return 'units[%r]' % (self.unit)
+            return 'units[%s]' % quote_string(self.unit)
         else:
-            return 'units[%r, %s]' % (self.unit, self.tp)
+            return 'units[%s, %s]' % (quote_string(self.unit), self.tp)
 
 
 class Bytes(Unit):
@@ -1095,7 +1095,8 @@ R = Record  # Alias for record literals
 
 def _format_categories(cats, n=10):
     return '[%s%s]' % (
-        ', '.join(map(repr, cats[:n])),
+        ', '.join(quote_string(c) if isinstance(c, _strtypes) else repr(c)
+                  for c in cats[:n]),
         ', ...' if len(cats) > n else ''
     )
 
@@ -1421,7 +1422,7 @@ def pprint(ds, width=80):
 
     if isinstance(ds, Record):
         pairs = ['%s: %s' % (name if isidentifier(name) else
-                             repr(print_unicode_string(name)),
+                             quote_string(name),
                              pprint(typ, width - len(result) - len(name)))
                  for name, typ in zip(ds.names, ds.types)]
         short = '{%s}' % ', '.join(pairs)
diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 701d2a9..9393928 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -119,5 +119,34 @@ def groupby(func, seq):
 
 
 def isidentifier(s):
-    return (keyword.iskeyword(s) or
-            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*$', s) is not None)
+    # True and False are boolean literals in the datashape grammar
+    return (s not in ('True', 'False') and
+            (keyword.iskeyword(s) or
+             re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*\Z', s) is not None))
+
+
+_string_escapes = {u'\b': '\\b', u'\f': '\\f', u'\n': '\\n', u'\r': '\\r',
+                   u'\t': '\\t'}
+
+
+def quote_string(s):
+    """ A string literal of the datashape grammar with the value ``s``
+
+    This is ``repr`` restricted to the escapes that the lexer understands.
+
+    >>> print(quote_string('a b'))
+    'a b'
+    >>> print(quote_string('\\x00'))
+    '\\u0000'
+    """
+    quote = '"' if "'" in s and '"' not in s else "'"
+    chars = []
+    for c in s:
+        if c == quote:
+            c = '\\' + c
+        elif c in _string_escapes:
+            c = _string_escapes[c]
+        elif c == '\\' or ord(c) < 0x10000 and repr(c)[-2] != c:
+            c = '\\u%04x' % ord(c)
+        chars.append(c)
+    return quote + ''.join(chars) + quote
-- 
2.43.0


From b4bcd3ddfb21dabd00a9307a6a53f5df261d1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 08/53] fix: escape quotes and backslashes in the repr of
 datashapes

---
 datashape/coretypes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 2361e32..fa209f3 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -575,7 +575,7 @@ class DataShape(Mono):
         return self.name or ' * '.join(map(str, self.parameters))
 
     def __repr__(self):
-        s = pprint(self)
+        s = _escape_quoted(pprint(self))
         if '\n' in s:
             return 'dshape("""%s""")' % s
         else:
@@ -938,10 +938,15 @@ def _launder(x):
     raise TypeError("Received unsupported type {}".format(x))
 
 
+def _escape_quoted(s):
+    """ Escape text for use between double quotes in a Python literal """
+    return s.replace('\\', '\\\\').replace('"', '\\"')
+
+
 class CollectionPrinter(object):
 
     def __repr__(self):
-        s = str(self)
+        s = _escape_quoted(str(self))
         strs = ('"""%s"""' if '\n' in s else '"%s"') % s
         return 'dshape(%s)' % strs
 
-- 
2.43.0


From 77d81d6ee6a6b8ca3b505d9abc58b4dfd767a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 09/53] fix: print an option of an option in a form the grammar
 has

---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index fa209f3..57faef0 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -738,6 +738,9 @@ class Option(Mono):
         return self.ty.itemsize
 
     def __str__(self):
+        if isinstance(self.ty, Option):
+            # The grammar has no '??'
+            return '?option[%s]' % self.ty.ty
         return '?%s' % self.ty
 
     def to_numpy_dtype(self):
-- 
2.43.0


From a3504adb1586da2eec9dbab9402c56ecbe335d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 10/53] fix: the documented data types char and bytes can be
 parsed

---
 datashape/type_symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 1032100..94bff68 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -72,6 +72,8 @@ no_constructor_types = [
     ('real', ct.float64),
     ('complex', ct.complex_float64),
     ('string', ct.string),
+    ('char', ct.char),
+    ('bytes', ct.bytes_),
     ('json', ct.json),
     ('date', ct.date_),
     ('time', ct.time_),
-- 
2.43.0


From 2b06b0e3e20b6dad5b48937821ccd0716656c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 11/53] fix: string[...] with bad arguments raises TypeError

---
 datashape/coretypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 57faef0..44b8fb5 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -386,10 +386,15 @@ class String(Unit):
         if len(args) == 1:
             if isinstance(args[0], _strtypes):
                 fixlen, encoding = None, args[0]
-            if isinstance(args[0], _inttypes):
+            else:
                 fixlen, encoding = args[0], None
         if len(args) == 2:
             fixlen, encoding = args
+        if len(args) > 2:
+            raise TypeError('string takes at most a length and an encoding')
+
+        if fixlen is not None:
+            fixlen = operator.index(fixlen)
 
         encoding = encoding or 'U8'
         if isinstance(encoding, str):
-- 
2.43.0


From e997cd12f03272df37fd372f648d920a99295154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 12/53] fix: an empty time unit raises ValueError

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 44b8fb5..88886fd 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -299,7 +299,7 @@ def normalize_time_unit(s):
         return s
     if s in _unit_aliases:
         return _unit_aliases[s]
-    if s[-1] == 's' and len(s) > 2:
+    if len(s) > 2 and s[-1] == 's':
         return normalize_time_unit(s.rstrip('s'))
 
     raise ValueError("Do not understand time unit %s" % s)
-- 
2.43.0


From 3271db75dd9d81cf470fdb58e3b85bd2639e0d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 13/53] fix: struct[...] does not drop fields when names and
 types differ in number

---
 datashape/type_symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 94bff68..a3568ca 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -27,6 +27,9 @@ def _complex(tp):
 
 def _struct(names, dshapes):
     """Simple temporary type constructor for struct"""
+    if len(names) != len(dshapes):
+        raise ValueError('struct needs as many types as field names, got %d '
+                         'names and %d types' % (len(names), len(dshapes)))
     return ct.Record(list(zip(names, dshapes)))
 
 
-- 
2.43.0


From dc1d80b901d2a0e736a8321423893b32aeaa8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 14/53] fix: a fixed dimension hashes like the integer it is
 equal to

---
 datashape/coretypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 88886fd..8116c08 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -857,7 +857,9 @@ class Fixed(Unit):
         return (type(other) is Fixed and self.val == other.val or
                 isinstance(other, _inttypes) and self.val == other)
 
-    __hash__ = Mono.__hash__
+    def __hash__(self):
+        # Equal to the integer, so it has to hash like it
+        return hash(self.val)
 
     def __str__(self):
         return str(self.val)
-- 
2.43.0


From 75ebb82ebdd1258ceba1009ff86c4db36a35861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 15/53] fix: equality of an option counts the dimensions of its
 type once

---
 datashape/coretypes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 8116c08..49c0989 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -88,7 +88,7 @@ class Mono(with_metaclass(Type, object)):
 
     def __eq__(self, other):
         return (isinstance(other, Mono) and
-                self.shape == other.shape and
+                self._dims == other._dims and
                 self.measure.info() == other.measure.info())
 
     def __ne__(self, other):
@@ -98,13 +98,17 @@ class Mono(with_metaclass(Type, object)):
         try:
             h = self._hash
         except AttributeError:
-            h = self._hash = hash(self.shape) ^ hash(self.measure.info())
+            h = self._hash = hash(self._dims) ^ hash(self.measure.info())
         return h
 
     @property
     def shape(self):
         return ()
 
+    # The dimensions in front of the measure. Those of an option's type are
+    # not in front of its measure, which is the option itself.
+    _dims = ()
+
     def __len__(self):
         return 1
 
@@ -590,6 +594,8 @@ class DataShape(Mono):
     def shape(self):
         return self.parameters[:-1]
 
+    _dims = shape
+
     @property
     def measure(self):
         return self.parameters[-1]
-- 
2.43.0


From 7807c0e67bf0f5621b8d34b8e2f93823594497f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 16/53] fix: null survives pickling with protocols 0 and 1, and
 is no dimension

---
 datashape/coretypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 49c0989..772393d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -212,7 +212,8 @@ class Ellipsis(Mono):
 class Null(Unit):
 
     """The null datashape."""
-    pass
+    cls = MEASURE
+    __slots__ = ()
 
 
 class Date(Unit):
-- 
2.43.0


From 3f171012479feb2d1796e649aeab314d5c3ece26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 17/53] fix: a datashape ending in an array is flattened like
 the text it prints

---
 datashape/coretypes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 772393d..bff10f5 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -556,13 +556,18 @@ class DataShape(Mono):
                             "datashapes.\nTry:\n\tdshape('%s')"
                             % parameters[0])
         if len(parameters) > 0:
-            self._parameters = tuple(map(_launder, parameters))
+            parameters = tuple(map(_launder, parameters))
+            if isinstance(parameters[-1], DataShape):
+                # An array of arrays is an array with all of the dimensions
+                parameters = parameters[:-1] + parameters[-1].parameters
+            self._parameters = parameters
             if getattr(self._parameters[-1], 'cls', MEASURE) != MEASURE:
                 raise TypeError(('Only a measure can appear on the'
                                  ' last position of a datashape, not %s') %
                                 repr(self._parameters[-1]))
             for dim in self._parameters[:-1]:
-                if getattr(dim, 'cls', DIMENSION) != DIMENSION:
+                if (isinstance(dim, DataShape) or
+                        getattr(dim, 'cls', DIMENSION) != DIMENSION):
                     raise TypeError(('Only dimensions can appear before the'
                                      ' last position of a datashape, not %s') %
                                     repr(dim))
-- 
2.43.0


From d597f5b2d94ca1fa3348b0a96b811e86e06e1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 18/53] fix: a dimension alone is not accepted as a type, nor a
 compound type as a dimension

---
 datashape/coretypes.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index bff10f5..d73c280 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -197,6 +197,7 @@ class Ellipsis(Mono):
         A... * float32   # float32 array w/ any number of dimensions,
                         # associated with type variable A
     """
+    cls = DIMENSION
     __slots__ = 'typevar',
 
     def __init__(self, typevar=None):
@@ -741,10 +742,11 @@ class Option(Mono):
     Measure types which may or may not hold data. Makes no
     indication of how this is implemented in memory.
     """
+    cls = MEASURE
     __slots__ = 'ty',
 
     def __init__(self, ds):
-        self.ty = _launder(ds)
+        self.ty = _launder_type(ds)
 
     @property
     def shape(self):
@@ -905,6 +907,16 @@ class TypeVar(Unit):
 class Function(Mono):
     """Function signature type
     """
+    cls = MEASURE
+
+    def __init__(self, *params):
+        for param in params:
+            if not isinstance(param, Mono):
+                raise TypeError('Function signatures are made of types, '
+                                'not %r' % (param,))
+            _launder_type(param)
+        super(Function, self).__init__(*params)
+
     @property
     def restype(self):
         return self.parameters[-1]
@@ -920,11 +932,12 @@ class Function(Mono):
 
 
 class Map(Mono):
+    cls = MEASURE
     __slots__ = 'key', 'value'
 
     def __init__(self, key, value):
-        self.key = _launder(key)
-        self.value = _launder(value)
+        self.key = _launder_type(key)
+        self.value = _launder_type(value)
 
     def __str__(self):
         return '%s[%s, %s]' % (type(self).__name__.lower(),
@@ -960,6 +973,14 @@ def _launder(x):
     raise TypeError("Received unsupported type {}".format(x))
 
 
+def _launder_type(x):
+    """ Like _launder, but a dimension alone is not a type """
+    x = _launder(x)
+    if getattr(x, 'cls', MEASURE) != MEASURE:
+        raise TypeError('%r is a dimension, not a type' % (x,))
+    return x
+
+
 def _escape_quoted(s):
     """ Escape text for use between double quotes in a Python literal """
     return s.replace('\\', '\\\\').replace('"', '\\"')
@@ -1078,7 +1099,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
             str(name) if not isinstance(name, _strtypes) else name
             for name, _ in fields
         ])
-        types = [_launder(v) for _, v in fields]
+        types = [_launder_type(v) for _, v in fields]
 
         if len(set(names)) != len(names):
             for name in set(names):
-- 
2.43.0


From 6a48502af36a7fa7c54ea1449ffca1f35c902fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 19/53] fix: multiple ellipses are refused inside records,
 tuples and units too

---
 datashape/validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/validation.py b/datashape/validation.py
index 4339b40..4df13e8 100644
--- a/datashape/validation.py
+++ b/datashape/validation.py
@@ -21,8 +21,12 @@ def traverse(f, t):
     -------
     DataShape
     """
-    if isinstance(t, T.Mono) and not isinstance(t, T.Unit):
+    if isinstance(t, T.Units) or (isinstance(t, T.Mono) and
+                                  not isinstance(t, T.Unit)):
         return f(t, [traverse(f, p) for p in t.parameters])
+    if isinstance(t, (list, tuple)):
+        # E.g. the fields of a record
+        return [traverse(f, p) for p in t]
     return t
 
 
-- 
2.43.0


From 4f5f2c8cb2a0439a09bb99931ef5d1182ddb362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 20/53] fix: subshape agrees with Python on the length of any
 slice of a fixed dimension

---
 datashape/coretypes.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index d73c280..00f7b94 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -690,28 +690,25 @@ class DataShape(Mono):
         if isinstance(index, list) and isdimension(self[0]):
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
+            start, stop, step = index.start, index.stop, index.step
+            if step == 0:
+                raise ValueError('slice step cannot be zero')
             if isinstance(self[0], Fixed):
                 n = int(self[0])
-                start = index.start or 0
-                stop = index.stop or n
-                if start < 0:
-                    start = n + start
-                if stop < 0:
-                    stop = n + stop
-                count = stop - start
+            elif (stop is not None and stop >= 0 and (start or 0) >= 0 and
+                    (step is None or step > 0)):
+                n = stop
             else:
-                start = index.start or 0
-                stop = index.stop
-                if not stop:
-                    count = -start if start < 0 else var
-                if (stop is not None and start is not None and stop >= 0 and
-                        start >= 0):
-                    count = stop - start
-                else:
-                    count = var
-
-            if count != var and index.step is not None:
-                count = int(ceil(count / index.step))
+                n = None
+
+            if n is None:
+                count = var
+            else:
+                start, stop, step = index.indices(n)
+                if step < 0:
+                    start, stop, step = -start, -stop, -step
+                # Round up, and nothing is selected if stop is before start
+                count = max(0, (stop - start + step - 1) // step)
 
             return count * self.subarray(1)
         if isinstance(index, tuple):
-- 
2.43.0


From 25f4c949bf9789ea2eb14a4374eb21e60a446767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 21/53] fix: discover keeps the fields only some of the united
 records have

---
 datashape/discovery.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 602cffa..c7b9d5c 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -296,12 +296,15 @@ def unite_base(dshapes):
         return len(dshapes) * null
     if all(isinstance(ds, Unit) for ds in good_dshapes):
         base = lowest_common_dshape(good_dshapes)
-    elif (all(isinstance(ds, Record) for ds in good_dshapes) and
-          ds.names == dshapes[0].names for ds in good_dshapes):
-        names = good_dshapes[0].names
+    elif all(isinstance(ds, Record) for ds in good_dshapes):
+        # Every field of any of the records
+        names = list(OrderedDict.fromkeys(
+            name for ds in good_dshapes for name in ds.names))
         base = Record([[name,
                         unite_base([ds.dict.get(name, null) for ds in good_dshapes]).subshape[0]]
                        for name in names])
+    else:
+        return None
     if base:
         if bynull.get(True):
             base = Option(base)
-- 
2.43.0


From 5bccb895c2827dbc77449b90b4314a1b809a394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 22/53] fix: discover describes columns of types it knows no
 common type of

---
 datashape/discovery.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index c7b9d5c..9df50c6 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -211,7 +211,7 @@ def discover(seq):
                      for column in columns]
             unite = do_one([unite_identical, unite_merge_dimensions, Tuple])
             return len(seq) * unite(types)
-        except AttributeError:  # no subshape available
+        except (AttributeError, NoCommonType):  # no subshape available
             pass
 
     # [{k: v, k: v}, {k: v, k: v}]
@@ -222,7 +222,7 @@ def discover(seq):
             types = [unite([discover(data) for data in column]).subshape[0]
                      for column in columns]
             return len(seq) * Record(list(zip(keys, types)))
-        except AttributeError:
+        except (AttributeError, NoCommonType):
             pass
 
     types = list(map(discover, seq))
@@ -261,6 +261,10 @@ edges = dict((k, set(a for a, b in v)) for k, v in edges.items())
 toposorted = _toposort(edges)
 
 
+class NoCommonType(ValueError):
+    pass
+
+
 def lowest_common_dshape(dshapes):
     """ Find common shared dshape
 
@@ -276,7 +280,7 @@ def lowest_common_dshape(dshapes):
     common = set.intersection(*[descendents(edges, ds) for ds in dshapes])
     if common and any(c in toposorted for c in common):
         return min(common, key=toposorted.index)
-    raise ValueError("Not all dshapes are known.  Extend edges.")
+    raise NoCommonType("Not all dshapes are known.  Extend edges.")
 
 
 def unite_base(dshapes):
@@ -294,7 +298,9 @@ def unite_base(dshapes):
         good_dshapes = bynull[False]
     except KeyError:
         return len(dshapes) * null
-    if all(isinstance(ds, Unit) for ds in good_dshapes):
+    if len(set(good_dshapes)) == 1:
+        base = good_dshapes[0]
+    elif all(isinstance(ds, Unit) for ds in good_dshapes):
         base = lowest_common_dshape(good_dshapes)
     elif all(isinstance(ds, Record) for ds in good_dshapes):
         # Every field of any of the records
-- 
2.43.0


From c10a13a2a09f6fac17fb7f1e264bb5f1bc86e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 23/53] fix: promote sees options that are wrapped in a
 datashape

---
 datashape/promote.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/promote.py b/datashape/promote.py
index 798aba7..59c8ebb 100644
--- a/datashape/promote.py
+++ b/datashape/promote.py
@@ -41,6 +41,8 @@ def promote(lhs, rhs, promote_option=True):
     """
     if lhs == rhs:
         return lhs
+    # An option may come wrapped in a datashape
+    lhs, rhs = lhs.measure, rhs.measure
     left, right = getattr(lhs, 'ty', lhs), getattr(rhs, 'ty', rhs)
     if left == right == datashape.string:
         # Special case string promotion, since numpy promotes to `object`.
-- 
2.43.0


From 20fa930a64134953d5a3918c804f72d6d68db13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 24/53] fix: conversion to NumPy keeps the dimensions of record
 and tuple fields

---
 datashape/coretypes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 00f7b94..1e43b4f 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1125,7 +1125,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
         """
         To Numpy record dtype.
         """
-        return np.dtype([(str(name), to_numpy_dtype(typ))
+        return np.dtype([(str(name), _field_to_numpy_dtype(typ))
                          for name, typ in self.fields])
 
     def __getitem__(self, key):
@@ -1201,7 +1201,7 @@ class Tuple(CollectionPrinter, Mono):
         """
         To Numpy record dtype.
         """
-        return np.dtype([('f%d' % i, to_numpy_dtype(typ))
+        return np.dtype([('f%d' % i, _field_to_numpy_dtype(typ))
                          for i, typ in enumerate(self.parameters[0])])
 
 
@@ -1335,6 +1335,14 @@ def to_numpy_dtype(ds):
     return to_numpy(ds.measure)[1]
 
 
+def _field_to_numpy_dtype(ds):
+    shape, dtype = to_numpy(ds)
+    if -1 in shape:
+        raise TypeError('DataShape dimensions of %s are not NumPy-compatible '
+                        'in a field' % ds)
+    return np.dtype((dtype, shape)) if shape else dtype
+
+
 def to_numpy(ds):
     """
     Downcast a datashape object into a Numpy (shape, dtype) tuple if
-- 
2.43.0


From 307a1d7cfc2f9562a1268f392daae62cbbc14da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 25/53] fix: isfixed sees ellipses and the dimensions inside
 tuples and options

---
 datashape/predicates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 8d99b04..81c5668 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .util import collect, dshape
+from .util import collect, dshape, has_var_dim
 from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
                         date_, datetime_, TypeVar, to_numpy_dtype, Map,
@@ -104,9 +104,9 @@ def isfixed(ds):
         return False
     if isinstance(ds[0], Record):
         return all(map(isfixed, ds[0].types))
-    if len(ds) > 1:
+    if len(ds) > 1 and not isinstance(ds[0], Ellipsis):
         return isfixed(ds.subarray(1))
-    return True
+    return not has_var_dim(ds)
 
 
 def istabular(ds):
-- 
2.43.0


From 8a940f39a3c314ad8ac1fe512300f3978742bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 26/53] fix: ishomogeneous copes with ellipses and type
 variables among the dimensions

---
 datashape/predicates.py    | 2 +-
 datashape/util/__init__.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 81c5668..a330891 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -76,7 +76,7 @@ def ishomogeneous(ds):
     False
     """
     ds = dshape(ds)
-    return len(set(remove(isdimension, collect(isscalar, ds)))) == 1
+    return len(set(remove(isdimension, collect(isscalar, ds.measure)))) == 1
 
 
 def _dimensions(ds):
diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 9af40a8..37820f5 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -108,6 +108,7 @@ def collect(pred, expr):
         return chain.from_iterable(collect(pred, typ) for typ in expr.parameters)
     if isinstance(expr, (list, tuple)):
         return chain.from_iterable(collect(pred, item) for item in expr)
+    return []
 
 
 def has_var_dim(ds):
-- 
2.43.0


From 4e65b8813fd8b849e973d3722100c58f97752296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 27/53] fix: a datetime with a time zone is datelike

---
 datashape/predicates.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index a330891..3d6e1fc 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from .util import collect, dshape, has_var_dim
 from .internal_utils import remove
-from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
+from .coretypes import (DataShape, Date, DateTime, Fixed, Var, Ellipsis, Record, Tuple, Unit,
                         date_, datetime_, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
 from .typesets import floating, boolean
@@ -205,5 +205,4 @@ def isdatelike(ds):
     >>> isdatelike('?datetime')
     True
     """
-    ds = launder(ds)
-    return ds == date_ or ds == datetime_
+    return isinstance(launder(ds), (Date, DateTime))
-- 
2.43.0


From ea907a9e4d26164b76a5245c7b9542ec9470e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 28/53] fix: iscollection accepts a bare record type

---
 datashape/predicates.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 3d6e1fc..5a878dd 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -133,9 +133,7 @@ def iscollection(ds):
     >>> iscollection('int32')
     False
     """
-    if isinstance(ds, str):
-        ds = dshape(ds)
-    return isdimension(ds[0])
+    return isdimension(dshape(ds)[0])
 
 
 def isnumeric(ds):
-- 
2.43.0


From b2b7143efc0c30511a81ea0322711f6c8a130c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 29/53] fix: a decimal of any precision is numeric

---
 datashape/predicates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 5a878dd..d5b9db7 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from .util import collect, dshape, has_var_dim
 from .internal_utils import remove
-from .coretypes import (DataShape, Date, DateTime, Fixed, Var, Ellipsis, Record, Tuple, Unit,
+from .coretypes import (DataShape, Date, DateTime, Decimal, Fixed, Var, Ellipsis, Record, Tuple, Unit,
                         date_, datetime_, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
 from .typesets import floating, boolean
@@ -149,6 +149,9 @@ def isnumeric(ds):
     False
     """
     ds = launder(ds)
+    if isinstance(ds, Decimal):
+        # Numeric even where NumPy has no type of that precision
+        return True
 
     try:
         npdtype = to_numpy_dtype(ds)
-- 
2.43.0


From 2c12e10940edd9b91d478470da79b33c1bbf13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 30/53] fix: a sequence of the wrong length does not validate
 against a record

---
 datashape/user.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/user.py b/datashape/user.py
index c6b42be..d93fff8 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -45,8 +45,9 @@ def validate(schema, d):
 
 @dispatch(Record, (tuple, list))
 def validate(schema, seq):
-    return all(validate(sch, item) for (k, sch), item
-                                    in zip(schema.parameters[0], seq))
+    return (len(seq) == len(schema.parameters[0]) and
+            all(validate(sch, item) for (k, sch), item
+                                    in zip(schema.parameters[0], seq)))
 
 
 @dispatch(str, object)
-- 
2.43.0


From 9b195096c452b336827db3e5e91f0eec102e17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 31/53] fix: assert_dshape_equal notices a different number of
 dimensions

---
 datashape/util/testing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index f8fc5ea..e0bf985 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -74,6 +74,10 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
         path = ()
 
     if check_dim:
+        assert len(ashape) == len(bshape), \
+            'numbers of dimensions do not match: %d != %d\n%s != %s\n%s' % (
+                len(ashape), len(bshape), a, b, _fmt_path(path),
+            )
         for n, (adim, bdim) in enumerate(zip(ashape, bshape)):
             if adim != bdim:
                 path += '.shape[%d]' % n,
-- 
2.43.0


From c8ea02bc274bc397e981c7b5319b1a240a8309be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 32/53] fix: assert_dshape_equal works on units

---
 datashape/util/testing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index e0bf985..4d5014b 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -158,8 +158,7 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
         type(a).__name__.lower(), a.unit, b.unit, _fmt_path(path + ('.unit',)),
     )
 
-    path.append('.tp')
-    assert_dshape_equal(a.tp, b.tp, **kwargs)
+    assert_dshape_equal(a.tp, b.tp, path=path + ('.tp',), **kwargs)
 
 
 @dispatch(String, String)
-- 
2.43.0


From c73ed3b599bc0f5bd2b9d4abae5c33ef56edbf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 33/53] fix: assert_dshape_equal describes strings without a
 fixed length

---
 datashape/util/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 4d5014b..e8a950d 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -178,7 +178,7 @@ def assert_dshape_equal(a,
 
     if check_str_fixlen:
         assert a.fixlen == b.fixlen, \
-            'string fixlens do not match: %d != %d\n%s' % (
+            'string fixlens do not match: %s != %s\n%s' % (
                 a.fixlen, b.fixlen, _fmt_path(path + ('.fixlen',)),
             )
 
-- 
2.43.0


From 98079cd8366abf056618ad4be1d097877e33c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 34/53] fix: naming a datashape does not clobber a registered
 type

---
 datashape/coretypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 1e43b4f..c20fb5f 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -579,7 +579,11 @@ class DataShape(Mono):
         self.name = kwds.get('name')
 
         if self.name:
-            type(type(self))._registry[self.name] = self
+            registered = type(type(self))._registry.setdefault(self.name, self)
+            # Don't clobber existing types.
+            if registered != self:
+                raise TypeError('There is another type registered with name %s'
+                                % self.name)
 
     def __len__(self):
         return len(self.parameters)
-- 
2.43.0


From f810dc41c743f37bca66bb12a2f16bbcd1cdb928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 35/53] fix: maxtype and supertype report a record as not
 numeric

---
 datashape/typesets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index bfcec97..6f924a0 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -161,7 +161,7 @@ def supertype(measure):
     """
     if isinstance(measure, Option):
         measure = measure.ty
-    assert matches_typeset(measure, scalar), 'measure must be numeric'
+    assert measure in scalar, 'measure must be numeric'
     return supertype_map[measure]
 
 
@@ -195,7 +195,7 @@ def maxtype(measure):
     isoption = isinstance(measure, Option)
     if isoption:
         measure = measure.ty
-    if (not matches_typeset(measure, scalar) and
+    if (measure not in scalar and
         not isinstance(measure, (Decimal, TimeDelta))):
 
         raise TypeError('measure must be numeric')
-- 
2.43.0


From 00e8ce0babc0bdaa91f66c0d2ecbe3e9c6c7babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 36/53] fix: float16 is a floating point type

---
 datashape/typesets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index 6f924a0..df02903 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -112,7 +112,7 @@ signed = TypeSet(int8, int16, int32, int64, name='signed')
 unsigned = TypeSet(uint8, uint16, uint32, uint64, name='unsigned')
 integral = TypeSet(*[x for t in zip(signed, unsigned) for x in t],
                    name='integral')
-floating = TypeSet(float32, float64, name='floating')
+floating = TypeSet(float16, float32, float64, name='floating')
 complexes = TypeSet(complex64, complex128, name='complexes')
 boolean = TypeSet(bool_, name='boolean')
 
-- 
2.43.0


From f3b32a6f9fd584cc4909d29efc18eac8d6628934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 37/53] fix: the documented typevar['T'] form of a data type
 can be parsed

---
 datashape/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 6ca7e23..634700f 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -229,6 +229,10 @@ class DataShapeParser(object):
                 args = self.parse_type_arg_list()
                 if self.tok.id == lexer.RBRACKET:
                     self.advance_tok()
+                    if self.tok.id != lexer.ASTERISK:
+                        # Not a dim, but perhaps a dtype of the same name
+                        self.pos = saved_pos
+                        return None
                     raise NotImplementedError(
                         'dim type constructors not actually supported yet')
                 else:
-- 
2.43.0


From e801b11f5cf2b20a51486bce726777b9e8c5e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 38/53] fix: a type variable is named by a string the grammar
 has as a name

---
 datashape/coretypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index c20fb5f..c1f977e 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -896,6 +896,11 @@ class TypeVar(Unit):
     __slots__ = 'symbol',
 
     def __init__(self, symbol):
+        if not isinstance(symbol, _strtypes):
+            raise TypeError('TypeVar symbol must be a string, not %r' %
+                            (symbol,))
+        if not isidentifier(symbol):
+            raise ValueError('TypeVar symbol %r is not a name' % symbol)
         if not symbol[0].isupper():
             raise ValueError(('TypeVar symbol %r does not '
                               'begin with a capital') % symbol)
-- 
2.43.0


From 5b8128b89f5603faa4b9a6ef3e470795fcb5daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 39/53] fix: decimal[...] with bad arguments raises TypeError

---
 datashape/coretypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index c1f977e..f474c0d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -479,8 +479,8 @@ class Decimal(Unit):
     __slots__ = 'precision', 'scale'
 
     def __init__(self, precision, scale=0):
-        self.precision = precision
-        self.scale = scale
+        self.precision = operator.index(precision)
+        self.scale = operator.index(scale)
 
     def __str__(self):
         return 'decimal[precision={precision}, scale={scale}]'.format(
-- 
2.43.0


From a3aa873c5cead285dcf4cfd845a46edf940850af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 40/53] fix: categorical[...] with bad arguments raises
 TypeError

---
 datashape/coretypes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f474c0d..cf76ac9 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1164,8 +1164,15 @@ class Categorical(Mono):
 
     def __init__(self, categories, type=None, ordered=False):
         self.categories = tuple(categories)
-        self.type = (type or datashape.discover(self.categories)).measure
-        self.ordered = ordered
+        if any(isinstance(category, Mono) for category in self.categories):
+            raise TypeError('categories are values, not datashapes')
+        if type is None:
+            type = datashape.discover(self.categories)
+        elif not isinstance(type, Mono):
+            raise TypeError('type parameter to categorical datashape must be '
+                            'a datashape, not %r' % (type,))
+        self.type = type.measure
+        self.ordered = bool(ordered)
 
     def __str__(self):
         return '%s[%s, type=%s, ordered=%s]' % (
-- 
2.43.0


From a719adc6954d72e45abb9d13a4f96c8947040eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 41/53] fix: from_numpy copes with titled fields

---
 datashape/coretypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index cf76ac9..335d898 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1412,8 +1412,10 @@ def from_numpy(shape, dt):
         measure = String(dtype.itemsize // 4, 'U32')
     elif dtype.fields:
         fields = [(name, dtype.fields[name]) for name in dtype.names]
-        rec = [(name, from_numpy(t.shape, t.base))  # recurse into nested dtype
-               for name, (t, _) in fields]  # _ is the byte offset: ignore it
+        # A field is (dtype, byte offset) or (dtype, byte offset, title);
+        # only the dtype matters, recurse into it.
+        rec = [(name, from_numpy(field[0].shape, field[0].base))
+               for name, field in fields]
         measure = Record(rec)
     else:
         measure = CType.from_numpy_dtype(dtype)
-- 
2.43.0


From 4cd681865374ca795bdb0cba45b710088110486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 42/53] fix: a time difference too big for NumPy is text, not
 an OverflowError

---
 datashape/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 9df50c6..b465c99 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -180,7 +180,7 @@ def discover(s):
     for f in string_coercions:
         try:
             return discover(f(s))
-        except (ValueError, KeyError):
+        except (ValueError, KeyError, OverflowError):
             pass
 
     # don't let dateutil parse things like sunday, monday etc into dates
-- 
2.43.0


From 6a15d1c47359dab36a41def164e6e23f286153f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 43/53] fix: whether a text is a date does not depend on
 today's date

---
 datashape/discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index b465c99..e905b9c 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -188,7 +188,9 @@ def discover(s):
         return string
 
     try:
-        d = dateparse(s)
+        # Today's date must not decide what completes a partial date: the 29th
+        # of February exists every year here
+        d = dateparse(s, default=datetime(2000, 1, 1))
     except (ValueError, OverflowError):  # OverflowError for stuff like 'INF...'
         pass
     else:
-- 
2.43.0


From f132440f008596482dfb43a7dc24cca13297106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 44/53] fix: optionify recognises options wrapped in a
 datashape

---
 datashape/promote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/promote.py b/datashape/promote.py
index 59c8ebb..1eb4219 100644
--- a/datashape/promote.py
+++ b/datashape/promote.py
@@ -75,6 +75,6 @@ def optionify(lhs, rhs, dshape):
     """
     if hasattr(dshape.measure, 'ty'):
         return dshape
-    if hasattr(lhs, 'ty') or hasattr(rhs, 'ty'):
+    if hasattr(lhs.measure, 'ty') or hasattr(rhs.measure, 'ty'):
         return datashape.Option(dshape)
     return dshape
-- 
2.43.0


From a6ea0af7a567830926c2a4a1be9da7049e72219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 45/53] fix: arrays in fields that NumPy has no dtype for raise
 TypeError

---
 datashape/coretypes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 335d898..5965445 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1356,7 +1356,14 @@ def _field_to_numpy_dtype(ds):
     if -1 in shape:
         raise TypeError('DataShape dimensions of %s are not NumPy-compatible '
                         'in a field' % ds)
-    return np.dtype((dtype, shape)) if shape else dtype
+    if not shape:
+        return dtype
+    try:
+        return np.dtype((dtype, shape))
+    except ValueError as e:
+        # E.g. an array of a type without a size
+        raise TypeError('DataShape %s is not NumPy-compatible in a field: %s'
+                        % (ds, e))
 
 
 def to_numpy(ds):
-- 
2.43.0


From 3785b92efd797d21980031613f15a32d149a4238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 46/53] fix: ishomogeneous does not count the names of ellipses
 inside records

---
 datashape/predicates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index d5b9db7..1dbe7e9 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -76,7 +76,10 @@ def ishomogeneous(ds):
     False
     """
     ds = dshape(ds)
-    return len(set(remove(isdimension, collect(isscalar, ds.measure)))) == 1
+    # Dimensions are collected too so that nothing is found inside of them
+    terms = collect(lambda term: isscalar(term) or isdimension(term),
+                    ds.measure)
+    return len(set(remove(isdimension, terms))) == 1
 
 
 def _dimensions(ds):
-- 
2.43.0


From b8bab1c02887b5de50bec43d7c627859b0aa43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 47/53] fix: assert_dshape_equal compares measures with
 datashapes under its flags

---
 datashape/util/testing.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index e8a950d..9bcf5f0 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -2,9 +2,11 @@ from abc import ABCMeta
 
 from ..py2help import with_metaclass
 from ..coretypes import (
+    DIMENSION,
     DataShape,
     DateTime,
     Function,
+    Mono,
     Option,
     Record,
     String,
@@ -103,6 +105,19 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
     )
 
 
+@assert_dshape_equal.register(DataShape, Mono)
+@assert_dshape_equal.register(Mono, DataShape)
+def _one_without_dimensions(a, b, **kwargs):
+    # A measure is a datashape without dimensions
+    if DIMENSION in (getattr(a, 'cls', None), getattr(b, 'cls', None)):
+        return _base_case(a, b, **kwargs)
+    assert_dshape_equal(
+        a if isinstance(a, DataShape) else DataShape(a),
+        b if isinstance(b, DataShape) else DataShape(b),
+        **kwargs
+    )
+
+
 class Slotted(with_metaclass(ABCMeta)):
     @classmethod
     def __subclasshook__(cls, subcls):
-- 
2.43.0


From 820705e44e49983b2c6a875712ebde161ad5771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 48/53] fix: the repr of an unnamed type set does not depend on
 hashes

---
 datashape/typesets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index df02903..8b3326b 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -4,6 +4,7 @@ Traits constituting sets of types.
 
 from itertools import chain
 
+from .py2help import OrderedDict
 from .coretypes import (Unit, int8, int16, int32, int64, uint8, uint16, uint32,
                         uint64, float16, float32, float64, complex64,
                         complex128, bool_, Decimal, TimeDelta, Option)
@@ -48,8 +49,10 @@ class TypeSet(Unit):
     def __repr__(self):
         if self.name:
             return '{%s}' % (self.name,)
-        return "%s(%s, name=%s)" % (self.__class__.__name__, self._set,
-                                    self.name)
+        # In their order, not in that of their hashes
+        types = ', '.join(map(repr, OrderedDict.fromkeys(self._order)))
+        return "%s({%s}, name=%s)" % (self.__class__.__name__, types,
+                                      self.name)
 
     def __or__(self, other):
         return TypeSet(*chain(self, other))
-- 
2.43.0


From 907416ee30e77723cda92d1328fa47b8646dc99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:06 +0000
Subject: [PATCH 49/53] fix: discovery: a text with a number too long for a
 decimal is a string, not an error

---
 datashape/discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index e905b9c..c920d04 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -191,7 +191,9 @@ def discover(s):
         # Today's date must not decide what completes a partial date: the 29th
         # of February exists every year here
         d = dateparse(s, default=datetime(2000, 1, 1))
-    except (ValueError, OverflowError):  # OverflowError for stuff like 'INF...'
+    except (ValueError, ArithmeticError):
+        # OverflowError for stuff like 'INF...', decimal.InvalidOperation for
+        # minutes of more digits than a decimal has
         pass
     else:
         return date_ if is_zero_time(d.time()) else datetime_
-- 
2.43.0


From 91d93e4f96352c6394c8737bdb65d86e3c2d4f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 50/53] fix: text on the left of a product is its left operand

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 5965445..58c9989 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -157,7 +157,7 @@ class Mono(with_metaclass(Type, object)):
     def __rmul__(self, other):
         if isinstance(other, _strtypes):
             import datashape
-            return self * datashape.dshape(other)
+            return datashape.dshape(other) * self
         if isinstance(other, _inttypes):
             other = Fixed(other)
 
-- 
2.43.0


From 22ec9640e81cfc89a8139086c196e5f8f2917916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:42 +0000
Subject: [PATCH 51/53] fix: types which dshape leaves as they are can be asked
 for being a subschema

---
 datashape/user.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datashape/user.py b/datashape/user.py
index d93fff8..7fce15a 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -85,7 +85,10 @@ def validate(schema, value):
 
 @dispatch(object, object)
 def issubschema(a, b):
-    return issubschema(dshape(a), dshape(b))
+    a, b = dshape(a), dshape(b)
+    # not every type is made a datashape by ``dshape``
+    return issubschema(a if isinstance(a, DataShape) else DataShape(a),
+                       b if isinstance(b, DataShape) else DataShape(b))
 
 
 @dispatch(DataShape, DataShape)
-- 
2.43.0


From 42d8907927aaa3e35debb86f425d428812846318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:17 +0000
Subject: [PATCH 52/53] fix: the equality assertion says where a datetime meets
 a time

---
 datashape/util/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 9bcf5f0..657fb5b 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -153,7 +153,7 @@ def _base_case(a, b, path=None, **kwargs):
 @dispatch((DateTime, Time), (DateTime, Time))
 def assert_dshape_equal(a, b, path=None, check_tz=True, **kwargs):
     if type(a) != type(b):
-        return _base_case(a, b)
+        return _base_case(a, b, path=path)
     if check_tz:
         _check_slots(a, b, path)
 
-- 
2.43.0


From ecb02712b81c33284a1388638405bea1831eaba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:42 +0000
Subject: [PATCH 53/53] fix: types without slots and parameters survive the
 first pickle protocols

---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 58c9989..1a5b556 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -69,6 +69,9 @@ class Mono(with_metaclass(Type, object)):
 
     composite = False
 
+    # The pickle protocols 0 and 1 leave out a state that is empty
+    _parameters = ()
+
     def __init__(self, *params):
         self._parameters = params
 
-- 
2.43.0

