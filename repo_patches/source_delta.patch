From f5c3ecea30adb38a9c1e29fcae91f412536bb3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:03 +0000
Subject: [PATCH 01/29] fix: escape quote characters in references and quote
 padded references correctly

---
 sqlpuzzle/_backends/sql.py    | 16 +++++++++++++---
 sqlpuzzle/_common/sqlvalue.py |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 70bca71..e133d7f 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -39,9 +39,19 @@ class SqlBackend:
         """
         from sqlpuzzle._common.utils import force_text
         value = force_text(value)
-        parts = re.split(r'{quote}([^{quote}]+){quote}|\.'.format(quote=cls.reference_quote), value)
-        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
-        return '.'.join(parts)
+        parts = re.findall(
+            r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}(?:\.|\Z)|([^.]*)(?:\.|\Z)'.format(quote=cls.reference_quote),
+            value,
+        )
+        return '.'.join(cls._quote_reference_part(*part) for part in parts if any(part))
+
+    @classmethod
+    def _quote_reference_part(cls, quoted, unquoted):
+        if unquoted == '*':
+            return unquoted
+        quote = cls.reference_quote
+        name = quoted.replace(quote * 2, quote) or unquoted
+        return quote + name.replace(quote, quote * 2) + quote
 
     @classmethod
     def bytes(cls, value):
diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 9332a8b..c62ceca 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -84,7 +84,7 @@ class SqlValue(Object):
     def _string(self):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
-            return self._reference()
+            return get_backend().reference(self.value.strip())
         return "'{}'".format(_escape_value(force_text(self.value)))
 
     def _bytes(self):
-- 
2.43.0


From 58004620e2c4bae92266a33ab3b1697834d1e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:06 +0000
Subject: [PATCH 02/29] fix: render strings with backslash or newline unchanged
 on SQLite and PostgreSQL

---
 sqlpuzzle/_backends/postgresql.py |  6 ++++++
 sqlpuzzle/_backends/sql.py        |  6 ++++++
 sqlpuzzle/_backends/sqlite.py     |  5 +++++
 sqlpuzzle/_common/sqlvalue.py     | 13 +------------
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/sqlpuzzle/_backends/postgresql.py b/sqlpuzzle/_backends/postgresql.py
index 1711ee3..52ad784 100644
--- a/sqlpuzzle/_backends/postgresql.py
+++ b/sqlpuzzle/_backends/postgresql.py
@@ -15,6 +15,12 @@ class PostgreSqlBackend(SqlBackend):
     def boolean(cls, value):
         return 'true' if value else 'false'
 
+    @classmethod
+    def string(cls, value):
+        # Backslash has special meaning only in strings with prefix E.
+        prefix = 'E' if '\\' in value else ''
+        return "{}'{}'".format(prefix, value.replace('\\', '\\\\').replace("'", "''"))
+
     @classmethod
     def bytes(cls, value):
         return "E'\\\\x{}'".format(binascii.hexlify(value).decode('ascii'))
diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index e133d7f..a7e46f3 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -17,6 +17,12 @@ class SqlBackend:
     def boolean(cls, value):
         return '{:d}'.format(value)
 
+    @classmethod
+    def string(cls, value):
+        for old, new in (("\\", "\\\\"), ("'", "''"), ("\n", "\\n")):
+            value = value.replace(old, new)
+        return "'{}'".format(value)
+
     @classmethod
     def is_reference(cls, value):
         if not isinstance(value, str):
diff --git a/sqlpuzzle/_backends/sqlite.py b/sqlpuzzle/_backends/sqlite.py
index 0b25b1a..c487804 100644
--- a/sqlpuzzle/_backends/sqlite.py
+++ b/sqlpuzzle/_backends/sqlite.py
@@ -7,3 +7,8 @@ class SqliteBackend(SqlBackend):
     name = 'SQLite'
 
     supports_replace_into = True
+
+    @classmethod
+    def string(cls, value):
+        # Backslash has no special meaning in SQLite.
+        return "'{}'".format(value.replace("'", "''"))
diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index c62ceca..5f11ad6 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -10,17 +10,6 @@ from .utils import force_text, is_sql_instance
 __all__ = ('SqlValue', 'SqlReference')
 
 
-def _escape_value(value):
-    replace_table = (
-        ("\\", "\\\\"),
-        ("'", "''"),
-        ("\n", "\\n"),
-    )
-    for old, new in replace_table:
-        value = value.replace(old, new)
-    return value
-
-
 class SqlValue(Object):
     """
     Or ``sqlpuzzle.sqlvalue``.
@@ -85,7 +74,7 @@ class SqlValue(Object):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
             return get_backend().reference(self.value.strip())
-        return "'{}'".format(_escape_value(force_text(self.value)))
+        return get_backend().string(force_text(self.value))
 
     def _bytes(self):
         return get_backend().bytes(self.value)
-- 
2.43.0


From 2ac958f4e46d48db7f6f789c1273885978cf766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:23 +0000
Subject: [PATCH 03/29] fix: do not drop keyword arguments given together with
 a dictionary or Q objects

---
 sqlpuzzle/_common/argsparser.py     | 12 +++---------
 sqlpuzzle/_queryparts/conditions.py |  6 +++---
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 98ca9c5..8710417 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -65,14 +65,6 @@ class ParserInput:
             return self.args[0]
         return []
 
-    @property
-    def dictionary_or_kwds(self):
-        if self.is_dictionary:
-            return self.args[0]
-        if self.is_kwds:
-            return self.kwds
-        return {}
-
     @property
     def is_list(self):
         return len(self.args) == 1 and isinstance(self.args[0], (list, tuple))
@@ -116,7 +108,9 @@ class Parser:
         if self.input_data.is_dictionary or self.input_data.is_kwds:
             if not self.options.allow_dict:
                 raise InvalidArgumentException('Dictionary or kwds is disabled.')
-            self._parse_dictionary(self.input_data.dictionary_or_kwds)
+            if self.input_data.is_dictionary:
+                self._parse_dictionary(self.input_data.args[0])
+            self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
         for item in sorted(dictionary.items()):
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 8a7a494..9a1ae9d 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -109,9 +109,9 @@ class Conditions(BinaryOperationMixin, QueryParts):
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
             for item in args:
                 self.append_unique_part(item)
-        else:
-            for column_name, value in parse_args(options, *args, **kwds):
-                self.append_unique_part(self._condition_class(column_name, value))
+            args = ()
+        for column_name, value in parse_args(options, *args, **kwds):
+            self.append_unique_part(self._condition_class(column_name, value))
 
         return self
 
-- 
2.43.0


From f96705ff585ca68d80af18cace937c2b25f4f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:25 +0000
Subject: [PATCH 04/29] fix: keep order of OrderedDict as documented and do not
 compare values of a dictionary

---
 sqlpuzzle/_common/argsparser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 8710417..90debd3 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -1,3 +1,5 @@
+from collections import OrderedDict
+
 from sqlpuzzle.exceptions import InvalidArgumentException
 
 __all__ = ('parse_args',)
@@ -113,7 +115,10 @@ class Parser:
             self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
-        for item in sorted(dictionary.items()):
+        items = dictionary.items()
+        if not isinstance(dictionary, OrderedDict):
+            items = sorted(items, key=lambda item: item[0])
+        for item in items:
             self._parse_item(item)
 
     def _parse_list(self, list_):
-- 
2.43.0


From 8315784cc39f623f7a56d9cecac1b58abdee35a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:29 +0000
Subject: [PATCH 05/29] fix: reject tuples with too few items instead of
 padding them with None

---
 sqlpuzzle/_common/argsparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 90debd3..323312e 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -137,6 +137,8 @@ class Parser:
     def _create_batch(self, values):
         if len(values) > self.options.max_items:
             raise InvalidArgumentException('Too many arguments.')
+        if len(values) < self.options.min_items:
+            raise InvalidArgumentException('Too few arguments.')
         return self._append_nones(tuple(values))
 
     def _append_nones(self, tuple_with_values):
-- 
2.43.0


From 7a3e8fc2666c665e3b25a68456562e5620852bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:54 +0000
Subject: [PATCH 06/29] fix: allow keyword argument called options

---
 sqlpuzzle/_common/argsparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 323312e..d3ff846 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -6,7 +6,7 @@ __all__ = ('parse_args',)
 
 
 # pylint: disable=dangerous-default-value,keyword-arg-before-vararg
-def parse_args(options={}, *args, **kwds):
+def parse_args(options={}, /, *args, **kwds):
     """
     Parser of arguments.
 
-- 
2.43.0


From 2a63deca6d3683951d9d6043eb2e6a10f9994deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:58 +0000
Subject: [PATCH 07/29] fix: do not empty the dictionary passed to join

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 7637d5a..4f1ce47 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -123,7 +123,7 @@ class Table(QueryPart):
         if isinstance(arg, (list, tuple)) and len(arg) == 2:
             table = Table(*arg)
         elif isinstance(arg, dict) and len(arg) == 1:
-            table = Table(*arg.popitem())
+            table = Table(*next(iter(arg.items())))
         elif isinstance(arg, str):
             table = Table(arg)
         else:
-- 
2.43.0


From 0fe0a6912cf7e14144af89b9c38a6e020a14415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:01 +0000
Subject: [PATCH 08/29] fix: do not change joins while rendering a query

---
 sqlpuzzle/_queryparts/tables.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 4f1ce47..885e7db 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -78,13 +78,12 @@ class Table(QueryPart):
             table = force_text(SqlReference(self.table_name))
 
         if self._joins:
-            self._minimize_joins()
             table += ' ' + ' '.join(
                 '{} {}{}'.format(
                     JOIN_TYPES[join['type']],
                     join['table'],
                     ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
-                ) for join in self._joins
+                ) for join in self._minimized_joins()
             )
 
         return table
@@ -140,9 +139,9 @@ class Table(QueryPart):
             raise InvalidQueryException('You can not set join condition to nothing. Specify join table first.')
         self._joins[-1]['ons'].where(*args, **kwds)
 
-    def _minimize_joins(self):
+    def _minimized_joins(self):
         """
-        Minimizing of joins.
+        Minimizing of joins. Joins itself are kept untouched.
         Left/right and inner join of the same condition is only inner join.
         """
         joins_group = []
@@ -156,15 +155,15 @@ class Table(QueryPart):
             if append_new:
                 joins_group.append([join])
 
-        self._joins = []
+        minimized_joins = []
         for joins in joins_group:
             if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
-                joins[0]['type'] = INNER_JOIN
-                self._joins.append(joins[0])
+                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
             elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
-                self._joins.append(joins[0])
+                minimized_joins.append(joins[0])
             else:
-                self._joins.extend(joins)
+                minimized_joins.extend(joins)
+        return minimized_joins
 
 
 class Tables(QueryParts):
-- 
2.43.0


From 00358aedcd95b979e9cf40f4d64d2dad0bc56a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:22 +0000
Subject: [PATCH 09/29] fix: render value given as generator every time the
 same

---
 sqlpuzzle/_common/sqlvalue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 5f11ad6..567dbb4 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -43,12 +43,12 @@ class SqlValue(Object):
             frozenset: self._list,
             type(None): self._null,
             range: self._list,
-            types.GeneratorType: self._list,
             Select: self._subselect,
             Union: self._subselect,
         }
 
-        self.value = value
+        # Generators give value only once.
+        self.value = list(value) if isinstance(value, types.GeneratorType) else value
 
     def __str__(self):
         convert_method = self._get_convert_method()
-- 
2.43.0


From 1be0397cdf09a38852a123c7b5ba262835bce3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:25 +0000
Subject: [PATCH 10/29] fix: reject values of unknown type instead of rendering
 them as <undefined value>

---
 sqlpuzzle/_common/sqlvalue.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 567dbb4..1f9511e 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -107,10 +107,7 @@ class SqlValue(Object):
         return 'NULL'
 
     def _undefined(self):
-        try:
-            return '<undefined value {}>'.format(self.value)
-        except Exception:  # pylint: disable=broad-except
-            return '<undefined value>'
+        raise InvalidArgumentException('Value cannot be of type {}.'.format(type(self.value)))
 
     def _reference(self):
         return get_backend().reference(self.value)
-- 
2.43.0


From fbf59aa8e01d92e7a7d943b1dba92f7d048ac780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:53 +0000
Subject: [PATCH 11/29] fix: render sets in the same order in every process

---
 sqlpuzzle/_common/sqlvalue.py |  5 ++++-
 sqlpuzzle/relations.py        | 10 +++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 1f9511e..b04008c 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -96,7 +96,10 @@ class SqlValue(Object):
 
     def _list(self):
         if self.value:
-            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value))
+            items = [force_text(SqlValue(item)) for item in self.value]
+            if isinstance(self.value, (set, frozenset)):
+                items.sort()
+            return '({})'.format(', '.join(items))
         raise InvalidArgumentException('Empty list is not allowed.')
 
     def _subselect(self):
diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index 0731a12..f43a09e 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -170,7 +170,7 @@ class IN(_RelationValue):
     """
 
     _string_representation = 'IN'
-    _allowed_types = (list, tuple, range, types.GeneratorType)
+    _allowed_types = (list, tuple, range, types.GeneratorType, frozenset)
 
     def __init__(self, *args):
         if len(args) > 1:
@@ -181,8 +181,8 @@ class IN(_RelationValue):
             value = []
         try:
             #  Make list copy of value (if it is possible) because generators
-            #+ give value only once.
-            value = list(value)
+            #+ give value only once. Set is kept, it has no order to preserve.
+            value = frozenset(value) if isinstance(value, (set, frozenset)) else list(value)
         except TypeError:
             pass
         super().__init__(value)
@@ -191,7 +191,7 @@ class IN(_RelationValue):
         template = '%(col)s %(rel)s %(val)s'
 
         try:
-            value = [v for v in self.value if v is not None]
+            value = type(self.value)(v for v in self.value if v is not None)
             if None in self.value:
                 if value:
                     template = '(' + template + ' OR %(col)s IS NULL)'
@@ -230,7 +230,7 @@ class NOT_IN(IN):
         template = '%(col)s %(rel)s %(val)s'
 
         try:
-            value = [v for v in self.value if v is not None]
+            value = type(self.value)(v for v in self.value if v is not None)
             if None in self.value:
                 if value:
                     template = '(' + template + ' AND %(col)s IS NOT NULL)'
-- 
2.43.0


From 48fc662b892797683ae20734712be0c83d670a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:57 +0000
Subject: [PATCH 12/29] fix: do not split string given to relations IN and
 NOT_IN into characters

---
 sqlpuzzle/relations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index f43a09e..9fb66fb 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -179,6 +179,11 @@ class IN(_RelationValue):
             value = args[0]
         else:
             value = []
+        if isinstance(value, (str, bytes)):
+            raise InvalidArgumentException('Relation "{}" is not allowed for data type "{}".'.format(
+                self._string_representation,
+                type(value)
+            ))
         try:
             #  Make list copy of value (if it is possible) because generators
             #+ give value only once. Set is kept, it has no order to preserve.
-- 
2.43.0


From 1480f952199c4b7ffd358767cde175aeea0d9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:00 +0000
Subject: [PATCH 13/29] fix: do not ignore empty separator of GROUP_CONCAT

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aeb6591..a2f5858 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -131,7 +131,7 @@ class GroupConcat(Concat):
         return ''
 
     def _str_separator(self):
-        if self._separator:
+        if self._separator is not None:
             return ' SEPARATOR %s' % SqlValue(self._separator)
         return ''
 
-- 
2.43.0


From e2f048e4bf733db3b111c67bfb16d3945f1b0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:03 +0000
Subject: [PATCH 14/29] fix: do not drop repeated arguments of CONCAT and
 GROUP_CONCAT, reject none of them

---
 sqlpuzzle/_queryparts/functions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index a2f5858..0e4efb8 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -93,13 +93,20 @@ class Sum(FunctionWithDistinct):
     _function_name = 'SUM'
 
 
+class Expressions(Columns):
+    """Columns where the same one can be used more times."""
+
+    def __contains__(self, other_part):
+        return False
+
+
 class Concat(Function):
     _function_name = 'CONCAT'
 
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
-        self._columns = Columns().columns(*expr)
-        if not self._columns.is_set:
+        self._columns = Expressions().columns(*expr)
+        if not self._columns.count_of_parts:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
     def __str__(self):
-- 
2.43.0


From c6920419f9bde23a7f3abb80444625b25a7cc8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:40 +0000
Subject: [PATCH 15/29] fix: empty conditions add nothing and do not bypass
 confirmation of update and delete of all rows

---
 sqlpuzzle/_queryparts/conditions.py | 14 ++++++++++++++
 sqlpuzzle/_queryparts/queryparts.py |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 9a1ae9d..e58ebd6 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -98,6 +98,10 @@ class Conditions(BinaryOperationMixin, QueryParts):
         super().__init__()
         self.where(*args, **kwds)
 
+    @property
+    def is_set(self):
+        return any(getattr(part, 'is_set', True) for part in self._parts)
+
     @append_custom_sql_decorator
     def where(self, *args, **kwds):
         options = {
@@ -122,7 +126,13 @@ class ConditionsOfConditions(BinaryOperationMixin, Object):
         self.right = right
         self.type = type_
 
+    @property
+    def is_set(self):
+        return self.left.is_set or self.right.is_set
+
     def __str__(self):
+        if not self.left.is_set or not self.right.is_set:
+            return '({})'.format(self.left if self.left.is_set else self.right)
         template = '('
         template += '({})' if self._needs_brackets(self.left) else '{}'
         template += ' {} '
@@ -141,3 +151,7 @@ class Not(Function):
     def __init__(self, *args, **kwds):
         expr = Conditions(*args, **kwds)
         super().__init__(expr)
+
+    @property
+    def is_set(self):
+        return self.expr.is_set
diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 76f2ef8..5f36319 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -91,4 +91,4 @@ class ListOfQueryParts(Object, list):
         super().append(query_part)
 
     def __str__(self):
-        return self._separator.join(force_text(f) for f in self)
+        return self._separator.join(force_text(f) for f in self if getattr(f, 'is_set', True))
-- 
2.43.0


From 110ab2eba59b6e27a70dbd75b5d4512b2a5bd0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:44 +0000
Subject: [PATCH 16/29] fix: do not take two conditions Not or exists as a
 column and its value

---
 sqlpuzzle/_queryparts/conditions.py | 13 +++++++++++--
 sqlpuzzle/_queryparts/where.py      | 12 +-----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index e58ebd6..82e1503 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -7,7 +7,7 @@ from sqlpuzzle import relations
 from .functions import Function
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
-__all__ = ('Condition', 'Conditions', 'Not')
+__all__ = ('Condition', 'Conditions', 'Exists', 'Not')
 
 
 class BinaryOperationMixin:
@@ -110,7 +110,7 @@ class Conditions(BinaryOperationMixin, QueryParts):
             'allow_dict': True,
             'allow_list': True,
         }
-        if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
+        if args and all(isinstance(item, (Conditions, ConditionsOfConditions, Not, Exists)) for item in args):
             for item in args:
                 self.append_unique_part(item)
             args = ()
@@ -145,6 +145,15 @@ class ConditionsOfConditions(BinaryOperationMixin, Object):
         return isinstance(value, QueryParts) and value.count_of_parts > 1
 
 
+class Exists(Object):
+    def __init__(self, subquery):
+        super().__init__()
+        self._subquery = subquery
+
+    def __str__(self):
+        return 'EXISTS({})'.format(self._subquery)
+
+
 class Not(Function):
     _function_name = 'NOT'
 
diff --git a/sqlpuzzle/_queryparts/where.py b/sqlpuzzle/_queryparts/where.py
index 9b231b2..54d5b17 100644
--- a/sqlpuzzle/_queryparts/where.py
+++ b/sqlpuzzle/_queryparts/where.py
@@ -1,17 +1,7 @@
-from sqlpuzzle._common import Object
-from .conditions import Conditions
+from .conditions import Conditions, Exists
 
 __all__ = ('Where', 'Exists')
 
 
 class Where(Conditions):
     _keyword_of_parts = 'WHERE'
-
-
-class Exists(Object):
-    def __init__(self, subquery):
-        super().__init__()
-        self._subquery = subquery
-
-    def __str__(self):
-        return 'EXISTS({})'.format(self._subquery)
-- 
2.43.0


From 0d689bfca6f7050a7b6d03b97840fbec49e18735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:09 +0000
Subject: [PATCH 17/29] fix: do not take different values with equal Python
 comparison or text as the same

---
 sqlpuzzle/_common/__init__.py        |  2 +-
 sqlpuzzle/_common/utils.py           | 14 +++++++++++++-
 sqlpuzzle/_queries/union.py          |  6 +++---
 sqlpuzzle/_queryparts/columns.py     |  6 +++---
 sqlpuzzle/_queryparts/conditions.py  |  6 +++---
 sqlpuzzle/_queryparts/intooutfile.py | 10 +++++-----
 sqlpuzzle/_queryparts/order.py       |  6 +++---
 sqlpuzzle/_queryparts/queryparts.py  |  6 +++---
 sqlpuzzle/_queryparts/tables.py      | 10 +++++-----
 sqlpuzzle/_queryparts/values.py      |  6 +++---
 10 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/sqlpuzzle/_common/__init__.py b/sqlpuzzle/_common/__init__.py
index c23346c..d494264 100644
--- a/sqlpuzzle/_common/__init__.py
+++ b/sqlpuzzle/_common/__init__.py
@@ -2,4 +2,4 @@ from .argsparser import parse_args
 from .customsql import CustomSql
 from .object import Object
 from .sqlvalue import SqlValue, SqlReference
-from .utils import force_text, is_sql_instance, check_type_decorator
+from .utils import force_text, is_same, is_sql_instance, check_type_decorator
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 9a8275c..8a09860 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -2,7 +2,7 @@ from functools import wraps
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
-__all__ = ('force_text', 'is_sql_instance', 'check_type_decorator')
+__all__ = ('force_text', 'is_same', 'is_sql_instance', 'check_type_decorator')
 
 
 def force_text(value):
@@ -15,6 +15,18 @@ def is_sql_instance(value):
     return hasattr(value, 'tosql')
 
 
+def is_same(first, second):
+    """
+    Stricter comparison than ``==``, because for example ``1 == True`` or custom
+    SQL is equal to string with the same text, but those are different in SQL.
+    """
+    if type(first) is not type(second):
+        return False
+    if isinstance(first, (list, tuple)):
+        return len(first) == len(second) and all(is_same(f, s) for f, s in zip(first, second))
+    return first == second and (is_sql_instance(first) or str(first) == str(second))
+
+
 def check_type_decorator(allowed_types=()):
     def decorator(func):
         @wraps(func)
diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index 4904004..51b8d32 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -1,5 +1,5 @@
 from sqlpuzzle.exceptions import InvalidArgumentException
-from sqlpuzzle._common import check_type_decorator
+from sqlpuzzle._common import is_same, check_type_decorator
 from .query import Query
 
 __all__ = ('UNION', 'UNION_ALL', 'Union')
@@ -40,8 +40,8 @@ class Union(Query):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.query1 == other.query1 and
-            self.query2 == other.query2 and
+            is_same(self.query1, other.query1) and
+            is_same(self.query2, other.query2) and
             self.union_type == other.union_type
         )
 
diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 1def7d5..961feae 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, is_same, check_type_decorator, parse_args
 from .queryparts import QueryPart, QueryParts
 
 __all__ = ('Column', 'Columns')
@@ -21,8 +21,8 @@ class Column(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.alias == other.alias
+            is_same(self.column_name, other.column_name) and
+            is_same(self.alias, other.alias)
         )
 
     @property
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 82e1503..50f0405 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -2,7 +2,7 @@ import datetime
 import decimal
 import types
 
-from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import Object, SqlValue, SqlReference, is_same, check_type_decorator, parse_args
 from sqlpuzzle import relations
 from .functions import Function
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
@@ -52,8 +52,8 @@ class Condition(BinaryOperationMixin, QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value and
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value) and
             self.relation == other.relation
         )
 
diff --git a/sqlpuzzle/_queryparts/intooutfile.py b/sqlpuzzle/_queryparts/intooutfile.py
index 6e0c307..73fbb63 100644
--- a/sqlpuzzle/_queryparts/intooutfile.py
+++ b/sqlpuzzle/_queryparts/intooutfile.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlValue, check_type_decorator
+from sqlpuzzle._common import SqlValue, is_same, check_type_decorator
 from .queryparts import QueryPart
 
 __all__ = ('IntoOutfile',)
@@ -30,10 +30,10 @@ class IntoOutfile(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self._into_outfile == other._into_outfile and
-            self._fields_terminated_by == other._fields_terminated_by and
-            self._lines_terminated_by == other._lines_terminated_by and
-            self._optionally_enclosed_by == other._optionally_enclosed_by
+            is_same(self._into_outfile, other._into_outfile) and
+            is_same(self._fields_terminated_by, other._fields_terminated_by) and
+            is_same(self._lines_terminated_by, other._lines_terminated_by) and
+            is_same(self._optionally_enclosed_by, other._optionally_enclosed_by)
         )
 
     @property
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index afac74f..40f1514 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, is_same, check_type_decorator, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -26,7 +26,7 @@ class Order(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
+            is_same(self.column_name, other.column_name) and
             self.sort == other.sort
         )
 
@@ -72,6 +72,6 @@ class Orders(QueryParts):
 
     def _find_order_by_column_name(self, column_name):
         for order in self._parts:
-            if order.column_name == column_name:
+            if is_same(order.column_name, column_name):
                 return order
         return None
diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 5f36319..34ae785 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -1,7 +1,7 @@
 from functools import wraps
 import re
 
-from sqlpuzzle._common import Object, force_text, is_sql_instance
+from sqlpuzzle._common import Object, force_text, is_same, is_sql_instance
 from sqlpuzzle.exceptions import SqlPuzzleException
 
 __all__ = ('QueryPart', 'QueryParts', 'append_custom_sql_decorator', 'has')
@@ -52,14 +52,14 @@ class QueryParts(Object):
 
     def __contains__(self, other_part):
         for part in self._parts:
-            if part == other_part:
+            if is_same(part, other_part):
                 return True
         return False
 
     def __eq__(self, other):
         if not isinstance(other, QueryParts) or len(self._parts) != len(other._parts):
             return False
-        return all(sp == op for sp, op in zip(self._parts, other._parts))
+        return all(is_same(sp, op) for sp, op in zip(self._parts, other._parts))
 
     @property
     def count_of_parts(self):
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 885e7db..d3e0b10 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -1,6 +1,6 @@
 import sqlpuzzle
 from sqlpuzzle._backends import get_backend
-from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, force_text, is_same, check_type_decorator, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
 from .queryparts import QueryPart, QueryParts
 from .conditions import Condition, Conditions
@@ -47,8 +47,8 @@ class OnCondition(Condition):
         return (
             type(self) == type(other)
             and isinstance(self.value, str)
-            and self.value == other.column_name
-            and self.column_name == other.value
+            and is_same(self.value, other.column_name)
+            and is_same(self.column_name, other.value)
             and revert_relation == type(other.relation_instance)
         )
 
@@ -91,8 +91,8 @@ class Table(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.table_name == other.table_name and
-            self.alias == other.alias and
+            is_same(self.table_name, other.table_name) and
+            is_same(self.alias, other.alias) and
             self._joins == other._joins
         )
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index c3bb2e0..7d12b43 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -1,7 +1,7 @@
 import datetime
 import decimal
 
-from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, is_same, check_type_decorator, parse_args
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -20,8 +20,8 @@ class Value(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value)
         )
 
     @property
-- 
2.43.0


From 6262b7e23f8b30531d74c3d30e821845a876ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:32 +0000
Subject: [PATCH 18/29] fix: union can be used as key of a dictionary

---
 sqlpuzzle/_queries/union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index 51b8d32..1bea7b8 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -45,6 +45,8 @@ class Union(Query):
             self.union_type == other.union_type
         )
 
+    __hash__ = Query.__hash__
+
     def __and__(self, other):
         """
         Returns :py:class:`sqlpuzzle._queries.union.Union` instance, ``UNION ALL``.
-- 
2.43.0


From f22a77cff7e022b0860a9ab2ea2b210e8d6af523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:35 +0000
Subject: [PATCH 19/29] fix: compare also column of ON CONFLICT and allowance
 of update and delete of all rows

---
 sqlpuzzle/_queries/delete.py                | 5 +++++
 sqlpuzzle/_queries/update.py                | 5 +++++
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/sqlpuzzle/_queries/delete.py b/sqlpuzzle/_queries/delete.py
index 928d944..9a6df16 100644
--- a/sqlpuzzle/_queries/delete.py
+++ b/sqlpuzzle/_queries/delete.py
@@ -46,6 +46,11 @@ class Delete(Query):
             raise ConfirmDeleteAllException()
         return super().__str__()
 
+    def __eq__(self, other):
+        return super().__eq__(other) and self._allow_delete_all == other._allow_delete_all
+
+    __hash__ = Query.__hash__
+
     def allow_delete_all(self):
         """
         Allow query without ``WHERE`` condition.
diff --git a/sqlpuzzle/_queries/update.py b/sqlpuzzle/_queries/update.py
index 7660987..38b255f 100644
--- a/sqlpuzzle/_queries/update.py
+++ b/sqlpuzzle/_queries/update.py
@@ -46,6 +46,11 @@ class Update(Query):
             raise ConfirmUpdateAllException()
         return super().__str__()
 
+    def __eq__(self, other):
+        return super().__eq__(other) and self._allow_update_all == other._allow_update_all
+
+    __hash__ = Query.__hash__
+
     def allow_update_all(self):
         """
         Allow query without ``WHERE`` condition.
diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 9e19617..baf1a20 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -10,6 +10,9 @@ class OnConflictDoUpdate(Values):
         super().__init__(*args, **kwds)
         self._on_conflict = ''
 
+    def __eq__(self, other):
+        return super().__eq__(other) and self._on_conflict == other._on_conflict
+
     @property
     def _keyword_of_parts(self):
         return 'ON CONFLICT ({}) DO UPDATE'.format(self._on_conflict)
-- 
2.43.0


From 66bd69c1aaceaa5807e69c591263d69337cef944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:53 +0000
Subject: [PATCH 20/29] fix: raise exception of the library for unknown backend
 and unsupported arguments of upsert

---
 sqlpuzzle/_backends/__init__.py | 5 +++--
 sqlpuzzle/_queries/insert.py    | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_backends/__init__.py b/sqlpuzzle/_backends/__init__.py
index f0bb4b2..b84e9e2 100644
--- a/sqlpuzzle/_backends/__init__.py
+++ b/sqlpuzzle/_backends/__init__.py
@@ -1,3 +1,4 @@
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .mysql import MySqlBackend
 from .postgresql import PostgreSqlBackend
 from .sql import SqlBackend
@@ -21,9 +22,9 @@ def set_backend(database):
     Configure used database, so sqlpuzzle can generate queries which are needed.
     For now there is only support of MySQL and PostgreSQL.
     """
-    new_backend = BACKENDS.get(database.lower())
+    new_backend = BACKENDS.get(str(database).lower())
     if not new_backend:
-        raise Exception('Backend {} is not supported.'.format(database))
+        raise InvalidArgumentException('Backend {} is not supported.'.format(database))
     global BACKEND  # pylint: disable=global-statement
     BACKEND = new_backend
 
diff --git a/sqlpuzzle/_queries/insert.py b/sqlpuzzle/_queries/insert.py
index 742bfdf..95a335a 100644
--- a/sqlpuzzle/_queries/insert.py
+++ b/sqlpuzzle/_queries/insert.py
@@ -1,4 +1,5 @@
 from sqlpuzzle._backends import get_backend
+from sqlpuzzle.exceptions import InvalidArgumentException
 from sqlpuzzle._queries.options import Options
 from sqlpuzzle._queryparts import Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
 from .query import Query
@@ -75,7 +76,7 @@ class Insert(Query):
             self._on_conflict_do_update.set(*args, **kwds)
         if backend.supports_replace_into:
             if args or kwds:
-                raise Exception(
+                raise InvalidArgumentException(
                     'No argument for on_duplicate_key_update for backend {} is supported'.format(
                         backend.name
                     )
-- 
2.43.0


From a0b15f27cbccedff801e695f36fb9f63711981e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:13 +0000
Subject: [PATCH 21/29] fix: raise exception of the library for invalid sort,
 limit and keys of a dictionary

---
 sqlpuzzle/_common/argsparser.py |  7 ++++++-
 sqlpuzzle/_queryparts/limit.py  | 12 ++++++++++--
 sqlpuzzle/_queryparts/order.py  |  6 +++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index d3ff846..e81f5b4 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -1,6 +1,7 @@
 from collections import OrderedDict
 
 from sqlpuzzle.exceptions import InvalidArgumentException
+from .utils import force_text
 
 __all__ = ('parse_args',)
 
@@ -117,7 +118,11 @@ class Parser:
     def _parse_dictionary(self, dictionary):
         items = dictionary.items()
         if not isinstance(dictionary, OrderedDict):
-            items = sorted(items, key=lambda item: item[0])
+            try:
+                items = sorted(items, key=lambda item: item[0])
+            except TypeError:
+                # Keys of different types can not be compared.
+                items = sorted(items, key=lambda item: force_text(item[0]))
         for item in items:
             self._parse_item(item)
 
diff --git a/sqlpuzzle/_queryparts/limit.py b/sqlpuzzle/_queryparts/limit.py
index 04e43d9..07c5175 100644
--- a/sqlpuzzle/_queryparts/limit.py
+++ b/sqlpuzzle/_queryparts/limit.py
@@ -1,4 +1,5 @@
 from sqlpuzzle._common import check_type_decorator
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart
 
 __all__ = ('Limit',)
@@ -37,12 +38,19 @@ class Limit(QueryPart):
             self._limit = None
             self._offset = None
         else:
-            self._limit = int(limit)
+            self._limit = self._to_int(limit)
             if offset is not None:
                 self.offset(offset)
         return self
 
     @check_type_decorator((type(None), int))
     def offset(self, offset):
-        self._offset = int(offset) if offset else None
+        self._offset = self._to_int(offset) if offset else None
         return self
+
+    @staticmethod
+    def _to_int(value):
+        try:
+            return int(value)
+        except TypeError:
+            raise InvalidArgumentException('Limit and offset cannot be of type {}.'.format(type(value)))
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index 40f1514..7584103 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, is_same, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, force_text, is_same, check_type_decorator, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -44,11 +44,11 @@ class Order(QueryPart):
         return self._sort
 
     @sort.setter
-    @check_type_decorator((str, int, type(None)))
+    @check_type_decorator((str, type(None)))
     def sort(self, sort):
         if sort is None:
             sort = ASC
-        sort = sort.upper()
+        sort = force_text(sort).upper()
         if sort not in (ASC, DESC):
             raise InvalidArgumentException('Type of order can be only {} or {}.'.format(ASC, DESC))
         self._sort = sort
-- 
2.43.0


From 87f9ec6a1dbe4b76287751ca2e6e57de3966878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:17 +0000
Subject: [PATCH 22/29] fix: reject custom SQL instead of values of insert
 right away

---
 sqlpuzzle/_queryparts/values.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index 7d12b43..259a8fb 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -2,6 +2,7 @@ import datetime
 import decimal
 
 from sqlpuzzle._common import SqlValue, SqlReference, is_same, check_type_decorator, parse_args
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -93,5 +94,7 @@ class MultipleValues(QueryParts):
 
     def add(self, *args, **kwds):
         values = Values().set(*args, **kwds)
+        if not all(isinstance(value, Value) for value in values._parts):
+            raise InvalidArgumentException('Custom SQL can not be used instead of values.')
         self.append_part(values)
         return self
-- 
2.43.0


From 1d07711c1af982e370817d1d88a0a16e9e3d9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:20 +0000
Subject: [PATCH 23/29] fix: do not apply anything of a call which is rejected

---
 sqlpuzzle/_queryparts/columns.py            |  4 ++--
 sqlpuzzle/_queryparts/conditions.py         |  8 +++++---
 sqlpuzzle/_queryparts/limit.py              |  3 ++-
 sqlpuzzle/_queryparts/onconflictdoupdate.py |  3 ++-
 sqlpuzzle/_queryparts/order.py              | 10 +++++-----
 sqlpuzzle/_queryparts/tables.py             |  5 +++--
 sqlpuzzle/_queryparts/values.py             |  5 +++--
 7 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 961feae..11d68f3 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -52,8 +52,8 @@ class Columns(QueryParts):
             'max_items': 2,
             'allow_dict': True,
         }
-        for column_name, alias in parse_args(options, *args, **kwds):
-            column = Column(column_name, alias)
+        columns = [Column(*column) for column in parse_args(options, *args, **kwds)]
+        for column in columns:
             if column not in self:
                 self.append_part(column)
 
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 50f0405..24bfd75 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -110,12 +110,14 @@ class Conditions(BinaryOperationMixin, QueryParts):
             'allow_dict': True,
             'allow_list': True,
         }
+        conditions = []
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions, Not, Exists)) for item in args):
-            for item in args:
-                self.append_unique_part(item)
+            conditions.extend(args)
             args = ()
         for column_name, value in parse_args(options, *args, **kwds):
-            self.append_unique_part(self._condition_class(column_name, value))
+            conditions.append(self._condition_class(column_name, value))
+        for condition in conditions:
+            self.append_unique_part(condition)
 
         return self
 
diff --git a/sqlpuzzle/_queryparts/limit.py b/sqlpuzzle/_queryparts/limit.py
index 07c5175..038c126 100644
--- a/sqlpuzzle/_queryparts/limit.py
+++ b/sqlpuzzle/_queryparts/limit.py
@@ -38,9 +38,10 @@ class Limit(QueryPart):
             self._limit = None
             self._offset = None
         else:
-            self._limit = self._to_int(limit)
+            limit = self._to_int(limit)
             if offset is not None:
                 self.offset(offset)
+            self._limit = limit
         return self
 
     @check_type_decorator((type(None), int))
diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index baf1a20..1a70970 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -19,10 +19,11 @@ class OnConflictDoUpdate(Values):
 
     def set(self, *args, **kwds):
         if args and isinstance(args[0], str):
-            self._on_conflict = SqlReference(args[0])
+            on_conflict = SqlReference(args[0])
             args = args[1:]
         else:
             raise InvalidQueryException(
                 'ON CONFLICT (column_name) DO UPDATE needs reference to column as first argument'
             )
         super().set(*args, **kwds)
+        self._on_conflict = on_conflict
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index 7584103..1abff37 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -60,13 +60,13 @@ class Orders(QueryParts):
             'max_items': 2,
             'allow_dict': True,
         }
-        for column_name, sort in parse_args(options, *args, **kwds):
-            order = self._find_order_by_column_name(column_name)
+        new_orders = [Order(*order) for order in parse_args(options, *args, **kwds)]
+        for new_order in new_orders:
+            order = self._find_order_by_column_name(new_order.column_name)
             if order is None:
-                order = Order(column_name, sort)
-                self.append_part(order)
+                self.append_part(new_order)
             else:
-                order.sort = sort
+                order.sort = new_order.sort
 
         return self
 
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index d3e0b10..8860999 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -174,8 +174,9 @@ class Tables(QueryParts):
             'max_items': 2,
             'allow_dict': True,
         }
-        for table_name, as_ in parse_args(options, *args, **kwds):
-            self.append_unique_part(Table(table_name, as_))
+        tables = [Table(*table) for table in parse_args(options, *args, **kwds)]
+        for table in tables:
+            self.append_unique_part(table)
 
         return self
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index 259a8fb..99b81f7 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -53,8 +53,9 @@ class Values(QueryParts):
             'allow_dict': True,
             'allow_list': True,
         }
-        for column_name, value in parse_args(options, *args, **kwds):
-            self.append_unique_part(Value(column_name, value))
+        values = [Value(*value) for value in parse_args(options, *args, **kwds)]
+        for value in values:
+            self.append_unique_part(value)
 
         return self
 
-- 
2.43.0


From bee566f74751042d0cf65a53fc29199a07c7f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:40 +0000
Subject: [PATCH 24/29] fix: has works with any text, do not take it as regular
 expression

---
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 34ae785..8c073d7 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -21,7 +21,7 @@ def has(part, value):
     value = force_text(value)
     #  If I look for example for "distinct", I don't want to say "hey, there is
     #+ distinct!", if there is actually "distinctrow".
-    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(value), str(part))
+    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(re.escape(value)), str(part))
     return bool(res)
 
 
-- 
2.43.0


From d2db9ba2bf2056d47f8a615a589bb23a8feb02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:43 +0000
Subject: [PATCH 25/29] fix: has works also with FOR UPDATE and keyword of
 insert

---
 sqlpuzzle/_queries/insert.py        | 5 +++--
 sqlpuzzle/_queries/selectoptions.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_queries/insert.py b/sqlpuzzle/_queries/insert.py
index 95a335a..3d06cd9 100644
--- a/sqlpuzzle/_queries/insert.py
+++ b/sqlpuzzle/_queries/insert.py
@@ -1,14 +1,15 @@
 from sqlpuzzle._backends import get_backend
 from sqlpuzzle.exceptions import InvalidArgumentException
 from sqlpuzzle._queries.options import Options
-from sqlpuzzle._queryparts import Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
+from sqlpuzzle._queryparts import QueryPart, Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
 from .query import Query
 
 __all__ = ('Insert',)
 
 
-class InsertKeyword:
+class InsertKeyword(QueryPart):
     def __init__(self):
+        super().__init__()
         self._is_replace = False
 
     def __str__(self):
diff --git a/sqlpuzzle/_queries/selectoptions.py b/sqlpuzzle/_queries/selectoptions.py
index d0f9d99..a692d34 100644
--- a/sqlpuzzle/_queries/selectoptions.py
+++ b/sqlpuzzle/_queries/selectoptions.py
@@ -1,5 +1,6 @@
 from sqlpuzzle._common import Object
 from sqlpuzzle._queries.options import Options
+from sqlpuzzle._queryparts.queryparts import has
 
 __all__ = ()
 
@@ -98,7 +99,7 @@ class SelectForUpdate(Object):
         return self._for_update
 
     def has(self, value):
-        return hasattr(self, value)
+        return has(self, value)
 
     def for_update(self, allow=True):
         self._for_update = bool(allow)
-- 
2.43.0


From d9075ddd6a842ca52eb0e87ee1aaabcd6b392462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:58 +0000
Subject: [PATCH 26/29] fix: generators nested in lists rendered differently
 the second time

---
 sqlpuzzle/_common/sqlvalue.py |  6 ++----
 sqlpuzzle/_common/utils.py    | 14 +++++++++++++-
 sqlpuzzle/relations.py        |  4 ++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index b04008c..73d9053 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -1,11 +1,10 @@
 import datetime
 import decimal
-import types
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 from sqlpuzzle._backends import get_backend
 from .object import Object
-from .utils import force_text, is_sql_instance
+from .utils import consume_generators, force_text, is_sql_instance
 
 __all__ = ('SqlValue', 'SqlReference')
 
@@ -47,8 +46,7 @@ class SqlValue(Object):
             Union: self._subselect,
         }
 
-        # Generators give value only once.
-        self.value = list(value) if isinstance(value, types.GeneratorType) else value
+        self.value = consume_generators(value)
 
     def __str__(self):
         convert_method = self._get_convert_method()
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 8a09860..6f53310 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -1,8 +1,9 @@
 from functools import wraps
+import types
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
-__all__ = ('force_text', 'is_same', 'is_sql_instance', 'check_type_decorator')
+__all__ = ('force_text', 'is_same', 'is_sql_instance', 'consume_generators', 'check_type_decorator')
 
 
 def force_text(value):
@@ -27,6 +28,17 @@ def is_same(first, second):
     return first == second and (is_sql_instance(first) or str(first) == str(second))
 
 
+def consume_generators(value):
+    """
+    Generators give values only once, so replace them by lists, also nested ones.
+    """
+    if isinstance(value, types.GeneratorType):
+        value = list(value)
+    if type(value) in (list, tuple):
+        return type(value)(consume_generators(item) for item in value)
+    return value
+
+
 def check_type_decorator(allowed_types=()):
     def decorator(func):
         @wraps(func)
diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index 9fb66fb..0724beb 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -14,7 +14,7 @@ import decimal
 import types
 
 from sqlpuzzle._common.object import Object
-from sqlpuzzle._common.utils import force_text, is_sql_instance
+from sqlpuzzle._common.utils import consume_generators, force_text, is_sql_instance
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
@@ -187,7 +187,7 @@ class IN(_RelationValue):
         try:
             #  Make list copy of value (if it is possible) because generators
             #+ give value only once. Set is kept, it has no order to preserve.
-            value = frozenset(value) if isinstance(value, (set, frozenset)) else list(value)
+            value = frozenset(value) if isinstance(value, (set, frozenset)) else consume_generators(list(value))
         except TypeError:
             pass
         super().__init__(value)
-- 
2.43.0


From 19763b430d41c975313f76c3b3714790bc638e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:14 +0000
Subject: [PATCH 27/29] fix: call with two values which can not be rendered was
 applied only partially

---
 sqlpuzzle/_common/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 6f53310..68ebf09 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -1,7 +1,7 @@
 from functools import wraps
 import types
 
-from sqlpuzzle.exceptions import InvalidArgumentException
+from sqlpuzzle.exceptions import InvalidArgumentException, SqlPuzzleException
 
 __all__ = ('force_text', 'is_same', 'is_sql_instance', 'consume_generators', 'check_type_decorator')
 
@@ -25,7 +25,11 @@ def is_same(first, second):
         return False
     if isinstance(first, (list, tuple)):
         return len(first) == len(second) and all(is_same(f, s) for f, s in zip(first, second))
-    return first == second and (is_sql_instance(first) or str(first) == str(second))
+    try:
+        return first == second and (is_sql_instance(first) or str(first) == str(second))
+    except SqlPuzzleException:
+        # What can not be rendered, is the same only as itself.
+        return first is second
 
 
 def consume_generators(value):
-- 
2.43.0


From ed676b9f4fd14f07f7234eccd17764a2fca324fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:06 +0000
Subject: [PATCH 28/29] fix: equal sets were not always taken as the same

---
 sqlpuzzle/_common/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 68ebf09..7474c9a 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -25,6 +25,10 @@ def is_same(first, second):
         return False
     if isinstance(first, (list, tuple)):
         return len(first) == len(second) and all(is_same(f, s) for f, s in zip(first, second))
+    if isinstance(first, (set, frozenset)):
+        # Text of a set can not be compared, it depends on the order of items.
+        items = {item: item for item in second}
+        return first == second and all(is_same(item, items[item]) for item in first)
     try:
         return first == second and (is_sql_instance(first) or str(first) == str(second))
     except SqlPuzzleException:
-- 
2.43.0


From b2485bd06667d0e9b415528c7895616fb5ed5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:44 +0000
Subject: [PATCH 29/29] fix: members of enums with mixed in str, int or float
 type rendered as their names

---
 sqlpuzzle/_common/sqlvalue.py      | 5 +++--
 sqlpuzzle/_common/utils.py         | 2 ++
 sqlpuzzle/_queryparts/functions.py | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 73d9053..6af9211 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -78,10 +78,11 @@ class SqlValue(Object):
         return get_backend().bytes(self.value)
 
     def _integer(self):
-        return '{:d}'.format(self.value)
+        return '{:d}'.format(int(self.value))
 
     def _float(self):
-        return '{:.5f}'.format(self.value)
+        type_ = float if isinstance(self.value, float) else decimal.Decimal
+        return '{:.5f}'.format(type_(self.value))
 
     def _boolean(self):
         return get_backend().boolean(self.value)
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 7474c9a..17730e2 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -9,6 +9,8 @@ __all__ = ('force_text', 'is_same', 'is_sql_instance', 'consume_generators', 'ch
 def force_text(value):
     if is_sql_instance(value):
         return value.tosql()
+    if isinstance(value, str):
+        return str.__str__(value)  # Subclass, like enum, can have own text representation.
     return str(value)
 
 
diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index 0e4efb8..b50de29 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -195,5 +195,5 @@ class Convert(Function):
             >>> sqlpuzzle.convert('col', 'unsigned')
             <Convert: CONVERT("col", UNSIGNED)>
         """
-        self._type = str(type_).upper()
+        self._type = force_text(type_).upper()
         return self
-- 
2.43.0

