From 5feeccc1ed5ff0862d05d74b768e147cd4ed2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 01/62] fix: rewinding to the current frame emptied the context
 stack

---
 pilo/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index 103b1e1..73e378c 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -136,11 +136,12 @@ class Context(threading.local):
         """
         for i, frame in enumerate(reversed(self.stack)):
             if stop(frame):
-                frames = self.stack[-i:]
+                depth = len(self.stack) - i
                 break
         else:
             raise RewindDidNotStop()
-        del self.stack[-i:]
+        frames = self.stack[depth:]
+        del self.stack[depth:]
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
-- 
2.43.0


From 71db76643005b182083d61b33f2f0df28e740b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 02/62] fix: a location below an absent one resolved against
 the NONE marker

---
 pilo/source/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index ed5ece5..1444db2 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -101,9 +101,9 @@ class Path(collections.MutableSequence):
             i, value = 0, self.root
 
         for part in self.parts[i:]:
-            value = part.value = self.resolve(value, part)
             if value is NONE:
                 break
+            value = part.value = self.resolve(value, part)
 
         return value
 
-- 
2.43.0


From 188339563281282277317b9f460d1c764b1261f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:04 +0000
Subject: [PATCH 03/62] fix: a date matching none of the formats was mapped to
 None without an error

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ea6d191..92a4de4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -918,7 +918,7 @@ class Date(Field, RangeMixin):
                 try:
                     return iso8601.parse_date(value).date()
                 except iso8601.ParseError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
@@ -926,7 +926,7 @@ class Date(Field, RangeMixin):
                 try:
                     return datetime.datetime.strptime(value, spec).date()
                 except ValueError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
-- 
2.43.0


From 956f8bd6e204c13d4622538d0ab37276c7cc7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:05 +0000
Subject: [PATCH 04/62] fix: malformed decimal text escaped as
 decimal.InvalidOperation

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 92a4de4..da371ac 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -857,7 +857,10 @@ class Decimal(Number):
         if isinstance(path.value, numbers.Number):
             return decimal.Decimal(path.value)
         value = path.primitive(six.string_types[0])
-        return decimal.Decimal(value)
+        try:
+            return decimal.Decimal(value)
+        except decimal.InvalidOperation:
+            raise ValueError('"{0}" is not a decimal'.format(value))
 
 
 class Boolean(Field):
-- 
2.43.0


From 663b17b71470a142fd6f4a154d386011da3bc8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:06 +0000
Subject: [PATCH 05/62] fix: Float.pattern parsed its match as an integer

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index da371ac..7b914cd 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -841,7 +841,7 @@ class Float(Number):
                 raise ValueError('{0} does not match pattern "{1}"'.format(
                     value, pattern_re.pattern
                 ))
-            return int(m.group(0))
+            return float(m.group(0))
 
         return self.parse(parse)
 
-- 
2.43.0


From fb2f12e69ee67c7c91db5081e836dbf02b862d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:07 +0000
Subject: [PATCH 06/62] fix: JsonSource passed json.loads an argument Python
 3.9 removed

---
 pilo/source/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 118bf5a..b94c7e0 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -40,7 +40,9 @@ class JsonSource(Source):
         self.strict = strict
         self.location = location
         self.text = text
-        self.data = json.loads(text, encoding=encoding)
+        if isinstance(text, bytes):
+            text = text.decode(encoding or 'utf-8')
+        self.data = json.loads(text)
 
     def as_string(self, field, value):
         if isinstance(value, six.string_types):
-- 
2.43.0


From 3494e630514cc8a88b8ebd5e8107c954a71f6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:08 +0000
Subject: [PATCH 07/62] fix: missing commas in fields.__all__ broke star
 imports

---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 7b914cd..2fe81fa 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -72,7 +72,7 @@ else:
 
 
 __all__ = [
-    'Field'
+    'Field',
     'String',
     'Integer',
     'Int',
@@ -80,8 +80,8 @@ __all__ = [
     'Decimal',
     'Boolean',
     'Bool',
-    'List'
-    'Dict'
+    'List',
+    'Dict',
     'SubForm',
     'Form',
 ]
-- 
2.43.0


From b76112def98459c85f1a5e858f83fd5b41d7c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 08/62] fix: not-a-number passed numeric bounds, or escaped as
 decimal.InvalidOperation

---
 pilo/fields.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2fe81fa..d0111ab 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -789,10 +789,20 @@ class Number(Field):
     def range(self, l, r):
         return self.min(l).max(r)
 
+    @staticmethod
+    def _is_nan(value):
+        if isinstance(value, decimal.Decimal):
+            return value.is_nan()
+        return value != value
+
     def _validate(self, value):
         if not super(Number, self)._validate(value):
             return False
         if value is not None:
+            bounded = self.min_value is not None or self.max_value is not None
+            if bounded and self._is_nan(value):
+                self.ctx.errors.invalid('"{0}" is not comparable'.format(value))
+                return False
             if self.min_value is not None and value < self.min_value:
                 self.ctx.errors.invalid('"{0}" must be >= {1}'.format(
                     value, self.min_value
-- 
2.43.0


From b0f4b830bc4c5daabf92871580d8567cde113ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:38 +0000
Subject: [PATCH 09/62] fix: an integer too large for a float escaped as
 OverflowError

---
 pilo/source/__init__.py | 5 ++++-
 pilo/source/json.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 1444db2..062702a 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -238,7 +238,10 @@ class ParserMixin(object):
         if isinstance(value, (float)):
             pass
         elif isinstance(value, six.integer_types):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                raise self.error(path, '"{0}" is not a float'.format(value))
         elif isinstance(value, six.string_types):
             try:
                 value = float(value)
diff --git a/pilo/source/json.py b/pilo/source/json.py
index b94c7e0..a9db892 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -69,7 +69,10 @@ class JsonSource(Source):
         if isinstance(value, (float)):
             return value
         if isinstance(value, six.integer_types):
-            return float(value)
+            try:
+                return float(value)
+            except OverflowError:
+                raise self.error(field, '{0} is not a float'.format(value))
         if not self.strict:
             if isinstance(value, six.string_types):
                 try:
-- 
2.43.0


From 22a0bc7e42a8278c8302aff18b1b4953ddd120f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:39 +0000
Subject: [PATCH 10/62] fix: translating a field with an unhashable value
 escaped as TypeError

---
 pilo/fields.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index d0111ab..afda948 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -522,8 +522,11 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         Possibly munges a value.
         """
-        if self.translations and value in self.translations:
-            value = self.translations[value]
+        try:
+            if self.translations and value in self.translations:
+                value = self.translations[value]
+        except TypeError:  # not hashable, so not translated
+            pass
         return value
 
     def _default(self):
-- 
2.43.0


From 2a11d3e308a03604a3e006cd334b716b78f136e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 11/62] fix: String.capture of a null value escaped as
 TypeError

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index afda948..9f4bba6 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -715,6 +715,8 @@ class String(Field):
             pattern = re.compile(pattern)
 
         def munge(self, value):
+            if value is None:
+                return value
             match = pattern.match(value)
             if not match:
                 return NONE
-- 
2.43.0


From f0e313f742818ce17fab159185b2d4dd278d19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:41 +0000
Subject: [PATCH 12/62] fix: Group patterns escaped as TypeError on non-string
 keys

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 9f4bba6..b276385 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1455,7 +1455,7 @@ class Group(Field):
             if isinstance(src, six.string_types):
                 if src == key:
                     return field, None
-            else:
+            elif isinstance(key, six.string_types):
                 m = src.match(key)
                 if m is not None:
                     return field, m
-- 
2.43.0


From 40fc6b81212444b276390afcd6a0bd08a129370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:42 +0000
Subject: [PATCH 13/62] fix: Date let a datetime through, which its bounds
 cannot be compared with

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index b276385..a90a064 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -920,6 +920,8 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
+        if isinstance(path.value, datetime.datetime):
+            return path.value.date()
         if isinstance(path.value, datetime.date):
             return path.value
         value = path.primitive(six.string_types[0])
-- 
2.43.0


From d00a29425d464b0af8d77e7406e3a0ae14b0950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:43 +0000
Subject: [PATCH 14/62] fix: String choices given as a tuple escaped as
 TypeError

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a90a064..c9a2139 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -759,7 +759,7 @@ class String(Field):
                 value, self.pattern_re.pattern
             ))
             return False
-        if self.choices and value not in self.choices + list(self.translations.values()):
+        if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
                     value, self.choices[0],
-- 
2.43.0


From 5d8f3e511cbfad9ab91642fc7f0992f24df16f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:44 +0000
Subject: [PATCH 15/62] fix: Dict required_keys given as a list escaped as
 AttributeError

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index c9a2139..30a3c3b 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1196,7 +1196,7 @@ class Dict(Field):
             return False
         if value is not None:
             if self.required_keys:
-                missing_keys = self.required_keys.difference(value.keys())
+                missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
                         ', '.join(missing_keys)
-- 
2.43.0


From 9896e88e424fd6ad24dad6b6e758d719afb826f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:45 +0000
Subject: [PATCH 16/62] fix: a value rejected by a validate hook was dropped
 without an error

---
 pilo/fields.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 30a3c3b..a2da8e4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -592,8 +592,14 @@ class Field(CreatedCountMixin, ContextMixin):
                 return self._default()
 
             # validate
-            if not self._validate(value) or (self.validate and not self.validate(value)):
+            if not self._validate(value):
                 return ERROR
+            if self.validate:
+                reported = len(self.ctx.errors)
+                if not self.validate(value):
+                    if len(self.ctx.errors) == reported:
+                        self.ctx.errors.invalid('not valid')
+                    return ERROR
 
         return value
 
-- 
2.43.0


From 8dc26cbc64779a7889737c1e42a485e65a7b748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:46 +0000
Subject: [PATCH 17/62] fix: attach_parent of a null value escaped as
 AttributeError

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a2da8e4..1eb22eb 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -618,7 +618,7 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         with self.ctx(field=self, parent=self):
             value = self._map(value)
-        if self.attach_parent and value not in IGNORE:
+        if self.attach_parent and value is not None and value not in IGNORE:
             if hasattr(self.ctx, 'parent'):
                 value.parent = weakref.proxy(self.ctx.parent)
             else:
-- 
2.43.0


From f4adcaaed5140c8f196542a62679228e0638f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:47 +0000
Subject: [PATCH 18/62] fix: reading a sibling without a value returned an
 internal marker

---
 pilo/fields.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 1eb22eb..96286af 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -647,7 +647,9 @@ class Field(CreatedCountMixin, ContextMixin):
                     return getattr(frame, 'parent', None) is form
                 try:
                     with self.ctx.rewind(is_form):
-                        return self.map()
+                        value = self.map()
+                    if value not in IGNORE:
+                        return value
                 except self.ctx.RewindDidNotStop:
                     with self.ctx(form=form, parent=form, src=DefaultSource({})):
                         value = self.map()
@@ -655,7 +657,7 @@ class Field(CreatedCountMixin, ContextMixin):
                 value = self()
         if value in IGNORE:
             raise AttributeError(
-                '"{0}" form cannot map field "{1}"'.format(form_type.__name__, self.name),
+                '"{0}" form cannot map field "{1}"'.format(type(form).__name__, self.name),
                 self,
             )
         form[self.name] = value
-- 
2.43.0


From b416ef71b5829ae245e772fd86db0a305c3f679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 19/62] fix: Form.has failed, or missed defaults, for fields
 not mapped yet

---
 pilo/fields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 96286af..f23b233 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1706,14 +1706,14 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             name = field
             if name in self:
                 return True
-            field = getattr(self, name, None)
-            if field is None:
+            field = getattr(type(self), name, None)
+            if not isinstance(field, Field):
                 return False
         elif not isinstance(field, Field):
             raise TypeError('{0!r} is not string for Field'.format(field))
         try:
-            return field.__get__(self) is not None
-        except LookupError:
+            return field.__get__(self, type(self)) is not None
+        except (AttributeError, LookupError, FormError):
             return False
 
     def flatten(self):
-- 
2.43.0


From 0b604fb14c9eb5248162c28e187cf6cc09b15aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 20/62] fix: a sequence source ignored fields with their own
 source key

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f23b233..17f813a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1610,7 +1610,8 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return DefaultSource(
             obj,
             aliases=dict(
-                (field.name, i) for i, field in enumerate(self.fields)
+                (field.src, i) for i, field in enumerate(self.fields)
+                if field.src is not None
             )
         )
 
-- 
2.43.0


From b841c0f6817ba9144ca6b079f6fe5cfc67d8a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:50 +0000
Subject: [PATCH 21/62] fix: capturing unmapped keys stored the raw values of
 declared fields

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 17f813a..1488ac5 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1653,8 +1653,11 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         if isinstance(directive, Field):
             directive = (String(), directive)
 
+        mapped = set()
+        for field in type(self).fields:
+            mapped.update([field.name, field.src])
         dict_field = Dict(*directive)
-        dict_field.key_filter.attach(self)(lambda self, key: key not in self)
+        dict_field.key_filter.attach(self)(lambda self, key: key not in mapped)
         return dict_field.map()
 
     def _root_map(self, src, tags, unmapped, error):
-- 
2.43.0


From 4a2abe4beefeabf595f5d039363afe760746e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:23 +0000
Subject: [PATCH 22/62] fix: the path of a field error did not outlive the
 mapping

---
 pilo/fields.py          | 2 +-
 pilo/source/__init__.py | 6 ++++++
 pilo/source/union.py    | 6 ++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 1488ac5..1d79c53 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -115,7 +115,7 @@ class FieldError(ValueError):
     def __init__(self, message, field):
         super(FieldError, self).__init__(message)
         self.field = field
-        self.path = field.ctx.src_path
+        self.path = copy.copy(field.ctx.src_path)
 
 
 class Missing(FieldError):
diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 062702a..fb0ba80 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -76,6 +76,12 @@ class Path(collections.MutableSequence):
         self.location = location
         self.parts = []
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.parts = list(self.parts)
+        return other
+
     def __str__(self):
         parts = []
         if self:
diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8bba843..686205f 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 
 from . import Path, PathPart, Source, NONE, DefaultSource
 
@@ -26,6 +27,11 @@ class UnionPath(Path):
 
     # Path
 
+    def __copy__(self):
+        other = super(UnionPath, self).__copy__()
+        other.paths = [copy.copy(path) for path in self.paths]
+        return other
+
     @property
     def is_null(self):
         if super(UnionPath, self).is_null:
-- 
2.43.0


From 17e2ac10bc0540bf17bc3e1cf268684d42238735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:23 +0000
Subject: [PATCH 23/62] fix: configuring a cloned field changed the field it
 was cloned from

---
 pilo/fields.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 1d79c53..c00836b 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -204,6 +204,13 @@ class Hook(object):
         self.target = target
         return self
 
+    def clone(self, parent):
+        other = copy.copy(self)
+        other.parent = parent
+        if self.target is self.parent:
+            other.target = parent
+        return other
+
     def __bool__(self):
         return self.func is not None
 
@@ -426,6 +433,12 @@ class Field(CreatedCountMixin, ContextMixin):
     def clone(self):
         other = copy.copy(self)
         other.parent = None
+        other.ignores = list(self.ignores)
+        other.translations = dict(self.translations)
+        other.tags = dict(self.tags)
+        for name, value in six.iteritems(vars(self)):
+            if isinstance(value, Hook):
+                setattr(other, name, value.clone(other))
         return other
 
     def from_context(self):
-- 
2.43.0


From cc22b8fecbfe0ed36365c2bab74e9b36b40ec339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:24 +0000
Subject: [PATCH 24/62] fix: from_context used contextlib.nested, which Python
 3 removed

---
 pilo/fields.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index c00836b..f02609c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -41,7 +41,6 @@ This defines `Form` and the `Field`s use to build them. Use it like:
         print form.payload.sfield
 
 """
-import contextlib
 import copy
 import sys
 import datetime
@@ -444,10 +443,16 @@ class Field(CreatedCountMixin, ContextMixin):
     def from_context(self):
 
         def resolve(self):
-            return contextlib.nested(
+            closes = [
                 self.ctx(src=DefaultSource(self.ctx)),
                 self.ctx(src=self.src),
-            )
+            ]
+
+            def restore():
+                while closes:
+                    closes.pop().func()
+
+            return Close(restore)
 
         self.resolve.attach(self)(resolve)
         return self
-- 
2.43.0


From f810860b4a7443d21fcd5e5502a4ac5dd6e3ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:25 +0000
Subject: [PATCH 25/62] fix: concurrent mappings corrupted the process-wide
 warning filters

---
 pilo/fields.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f02609c..b7e5426 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -52,7 +52,6 @@ import re
 import six
 import time
 import uuid
-import warnings
 import weakref
 
 try:
@@ -1679,24 +1678,20 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return dict_field.map()
 
     def _root_map(self, src, tags, unmapped, error):
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                'ignore', 'With-statements now directly support multiple context managers'
-            )
-            if src is None:
-                src = self._map_source({})
-            elif isinstance(src, dict):
-                src = self._map_source(src)
-            elif isinstance(src, (list, tuple)):
-                src = self._seq_source(src)
-            elif isinstance(src, Source):
-                pass
-            else:
-                raise ValueError('Invalid src, expected None, dict or Source')
-            errors = (CollectErrors if error == 'collect' else RaiseErrors)()
-            with self.ctx(src=src, errors=errors):
-                self._map(tags, unmapped)
-                errors = self.ctx.errors
+        if src is None:
+            src = self._map_source({})
+        elif isinstance(src, dict):
+            src = self._map_source(src)
+        elif isinstance(src, (list, tuple)):
+            src = self._seq_source(src)
+        elif isinstance(src, Source):
+            pass
+        else:
+            raise ValueError('Invalid src, expected None, dict or Source')
+        errors = (CollectErrors if error == 'collect' else RaiseErrors)()
+        with self.ctx(src=src, errors=errors):
+            self._map(tags, unmapped)
+            errors = self.ctx.errors
         return errors
 
     def _nested_map(self, tags, unmapped, error):
-- 
2.43.0


From 7560a42d1f2d63a582ed164a233f374a2c1b98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:26 +0000
Subject: [PATCH 26/62] fix: the merge depth of union mappings was compared
 with the number of sources

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 686205f..dceb43f 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -153,7 +153,7 @@ class Mapping(collections.Mapping):
         mappings = []
         if merge is None:
             merge = src.mapping_merge
-            if src.merge_depth is not None and src.merge_depth <= len(paths):
+            if src.merge_depth is not None and paths and src.merge_depth <= len(paths[0]):
                 merge = 'first'
         if merge not in ('first', 'last', 'combine'):
             raise ValueError('merge="{0}" invalid'.format(merge))
-- 
2.43.0


From a6c2b225b1b5fa4c18de2dc94574cbdba2dfdb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:27 +0000
Subject: [PATCH 27/62] fix: reading a union scalar as one type fixed what it
 reads as another

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index dceb43f..db169ec 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -118,7 +118,7 @@ class UnionSource(Source):
 
     def primitive(self, path, *types):
         if isinstance(path.value, Join):
-            path.value = path.value.primitive(*types)
+            return path.value.primitive(*types)
         return path.value
 
 
-- 
2.43.0


From e9648564d523e0c1d49d6dc94a4618b77a351f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 28/62] fix: a null in a union source was not recognized as
 null

---
 pilo/source/union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index db169ec..b292b6e 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -36,6 +36,8 @@ class UnionPath(Path):
     def is_null(self):
         if super(UnionPath, self).is_null:
             return True
+        if isinstance(self.value, Join):
+            return all(path.is_null for path in self.value.paths)
         if isinstance(self.value, Mapping):
             return len(self.value.mappings) == 0
         if isinstance(self.value, Sequence):
-- 
2.43.0


From 8040c40f5a4fb41b0b36d1a82eab4150952d7c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 29/62] fix: natively typed decimals, dates and times were
 rejected from union sources

---
 pilo/fields.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index b7e5426..553f473 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -892,10 +892,11 @@ class Float(Number):
 class Decimal(Number):
 
     def _parse(self, path):
-        if isinstance(path.value, decimal.Decimal):
-            return path.value
-        if isinstance(path.value, numbers.Number):
-            return decimal.Decimal(path.value)
+        value = path.primitive(None)
+        if isinstance(value, decimal.Decimal):
+            return value
+        if isinstance(value, numbers.Number):
+            return decimal.Decimal(value)
         value = path.primitive(six.string_types[0])
         try:
             return decimal.Decimal(value)
@@ -945,10 +946,11 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value.date()
-        if isinstance(path.value, datetime.date):
-            return path.value
+        value = path.primitive(None)
+        if isinstance(value, datetime.datetime):
+            return value.date()
+        if isinstance(value, datetime.date):
+            return value
         value = path.primitive(six.string_types[0])
         if not self._format:
             self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
@@ -1003,7 +1005,7 @@ class Time(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        value = path.value
+        value = path.primitive(None)
         if isinstance(value, (time.struct_time, datetime.time)):
             return value
         value = path.primitive(six.string_types[0])
@@ -1042,8 +1044,9 @@ class Datetime(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value
+        value = path.primitive(None)
+        if isinstance(value, datetime.datetime):
+            return value
         value = path.primitive(six.string_types[0])
         if self._format == 'iso8601':
             try:
-- 
2.43.0


From bdd316ce8b1ed01fa838cac40e6c0fcfce52ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 30/62] fix: MountSource did not work on Python 3, nor report
 its errors

---
 pilo/source/mount.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 251965d..46e6c0b 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import six
 
 from . import PathPart, Source, NONE, DefaultSource
@@ -7,12 +8,22 @@ from . import PathPart, Source, NONE, DefaultSource
 class MountPath(collections.MutableSequence):
 
     def __init__(self, src):
+        self.src = src
         self.part = None
         self.dne = DefaultSource({}).path()
         self.paths = dict(
-            (key, src.path()) for key, src in src.srcs.iteritems()
+            (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.dne = copy.copy(self.dne)
+        other.paths = dict(
+            (key, copy.copy(path)) for key, path in six.iteritems(self.paths)
+        )
+        return other
+
     @property
     def path(self):
         return self.paths.get(self.part.key, self.dne) if self.part else None
@@ -60,12 +71,12 @@ class MountPath(collections.MutableSequence):
 
     def primitive(self, *types):
         if self.part is None:
-            raise self.error(self, 'not a primitive')
+            raise self.src.error(self, 'not a primitive')
         return self.paths[self.part.key].primitive(*types)
 
     def sequence(self):
         if self.part is None:
-            raise self.error(self, 'not a sequence')
+            raise self.src.error(self, 'not a sequence')
         return self.paths[self.part.key].sequence()
 
     def mapping(self):
-- 
2.43.0


From 6e7971513456bbbcaaf3e58c34f2903e67590f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 31/62] fix: a key with no mounted source existed, and escaped
 as KeyError when read

---
 pilo/source/mount.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 46e6c0b..f1d04e8 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -10,7 +10,7 @@ class MountPath(collections.MutableSequence):
     def __init__(self, src):
         self.src = src
         self.part = None
-        self.dne = DefaultSource({}).path()
+        self.dne = DefaultSource(NONE).path()
         self.paths = dict(
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
@@ -72,12 +72,12 @@ class MountPath(collections.MutableSequence):
     def primitive(self, *types):
         if self.part is None:
             raise self.src.error(self, 'not a primitive')
-        return self.paths[self.part.key].primitive(*types)
+        return self.path.primitive(*types)
 
     def sequence(self):
         if self.part is None:
             raise self.src.error(self, 'not a sequence')
-        return self.paths[self.part.key].sequence()
+        return self.path.sequence()
 
     def mapping(self):
         if self.part is None:
-- 
2.43.0


From e03feac002c14dd2a9dd94a77f69d8bfe1fd402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 32/62] fix: a null in a mounted union source was not
 recognized as null

---
 pilo/source/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index f1d04e8..77a7dd6 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -67,7 +67,7 @@ class MountPath(collections.MutableSequence):
     def is_null(self):
         if self.part is None:
             return False
-        return self.value is None
+        return self.path.is_null
 
     def primitive(self, *types):
         if self.part is None:
-- 
2.43.0


From 4e5a788378b953cae730c62f482b2a4baec999cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 33/62] fix: ConfigSource could not be built from text, nor
 iterated, on Python 3

---
 pilo/source/configparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 84a5538..36a9890 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -78,7 +78,7 @@ class SectionMapping(collections.Mapping):
         raise KeyError(key)
 
     def __iter__(self):
-        for k, v in self.sub_mappings.iteritems():
+        for k in self.sub_mappings:
             yield k
         for k, v in self.config.items(self.section):
             yield k
@@ -132,7 +132,7 @@ class ConfigSource(Source, ParserMixin):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
                 config.optionxform = lambda x: x
-            parser.readfp(six.moves.StringIO.StringIO(config))
+            parser.readfp(six.moves.StringIO(config))
             config = parser
         self.config = config
         self.section = section
-- 
2.43.0


From 9aa2f6fbb3e85d431857805f184441949e5e97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:00 +0000
Subject: [PATCH 34/62] fix: ConfigSource preserve_case escaped as
 AttributeError

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 36a9890..8a2cd54 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -131,7 +131,7 @@ class ConfigSource(Source, ParserMixin):
         if isinstance(config, six.string_types):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
-                config.optionxform = lambda x: x
+                parser.optionxform = lambda x: x
             parser.readfp(six.moves.StringIO(config))
             config = parser
         self.config = config
-- 
2.43.0


From 4d31d99a63c1e7d36f95cb7288b981abee13030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:01 +0000
Subject: [PATCH 35/62] fix: sections of a ConfigSource without defaults
 escaped as AttributeError

---
 pilo/source/configparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 8a2cd54..3f70c1b 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -59,6 +59,7 @@ class SectionMapping(collections.Mapping):
     def __init__(self, config, section, defaults):
         self.config = config
         self.section = section
+        defaults = defaults or {}
         pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]'
         self.defaults = defaults
         self.sub_mappings = collections.defaultdict(dict)
@@ -91,7 +92,7 @@ class Mapping(collections.Mapping):
 
     def __init__(self, config, defaults=None):
         self.config = config
-        self.defaults = defaults
+        self.defaults = defaults or {}
 
     def __getitem__(self, key):
         if not self.config.has_section(key):
-- 
2.43.0


From dc81b2cfd1d07a02fbcccd68113398c98648ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:02 +0000
Subject: [PATCH 36/62] fix: preserved white space came from the wrong option,
 or from none

---
 pilo/source/configparser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 3f70c1b..8217c35 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -142,15 +142,19 @@ class ConfigSource(Source, ParserMixin):
         self.preserve_whitespace = preserve_whitespace
 
     def as_raw(self, path):
-        option = str(path[-1])
+        keys = [str(part) for part in path]
+        section = self.section or keys.pop(0)
+        option = keys[0] + ''.join('[{0}]'.format(key) for key in keys[1:])
+        option = self.config.optionxform(option)
         lines = []
         with open(self.location, 'r') as fo:
-            section_header = '[{0}]'.format(self.section)
+            section_header = '[{0}]'.format(section)
             for line in fo:
                 if line.strip() == section_header:
                     break
             for line in fo:
-                if line.strip().startswith(option):
+                name = re.split('[=:]', line, 1)[0].strip()
+                if not line[0].isspace() and self.config.optionxform(name) == option:
                     break
             for line in fo:
                 if line and not line[0].isspace():
-- 
2.43.0


From f5b0171b1ac5092dd2a740cb8c6614a51fd2895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:03 +0000
Subject: [PATCH 37/62] fix: inline code was not executed in the module it
 defines on Python 3

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 553f473..44b4db1 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1268,7 +1268,7 @@ class Code(Field):
     def compile(cls, name, code, **code_globals):
         module = imp.new_module('<{0}>'.format(name))
         module.__dict__.update(code_globals)
-        exec(code) in module.__dict__
+        six.exec_(code, module.__dict__)
         return module
 
     def _parse(self, path):
-- 
2.43.0


From 23941a217e223f87cbfc3d3aff7ba0f39a1205ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:04 +0000
Subject: [PATCH 38/62] fix: Code could not import from a dotted module

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 44b4db1..179aaa4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1255,7 +1255,8 @@ class Code(Field):
 
     @classmethod
     def load(cls, name, attr):
-        module = __import__(name)
+        __import__(name)
+        module = sys.modules[name]
         try:
             obj = six.moves.reduce(getattr, attr.split('.'), module)
         except AttributeError:
-- 
2.43.0


From c2b0dd504aa10d67403deb6cd9994792111aba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 39/62] fix: probing a document without its optional type
 escaped as AttributeError

---
 pilo/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 1dddad3..903061b 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -94,10 +94,12 @@ class Types(dict):
     def probe(self, src, default=NONE):
         probe = self.type_form()
         errors = probe.map(src)
-        if not errors:
-            return self.type_field.__get__(probe)
+        if not errors and self.type_field.name in probe:
+            return probe[self.type_field.name]
         if default in IGNORE:
-            raise errors[0]
+            if errors:
+                raise errors[0]
+            raise ValueError('{0} has no value'.format(self.type_field))
         return default
 
 
-- 
2.43.0


From fba76af53706f3773579286cdae10d753b186f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 40/62] fix: a key ending with "()" was called instead of
 looked up

---
 pilo/source/default.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 4620093..2d7469d 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -52,6 +52,9 @@ class DefaultPath(Path):
 
     def resolve(self, container, part):
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
+            value = self._as_item(container, part.key)
+            if value is not NONE:
+                return value
             part = copy.copy(part)
             part.key = part.key[:-2]
             value = self.resolve(container, part)
-- 
2.43.0


From 3d922bf168506eb26e6a5beb6249c363bede1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 41/62] fix: a fallback option lost its value when preserving
 white space

---
 pilo/source/configparser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 8217c35..326e3dc 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -141,7 +141,7 @@ class ConfigSource(Source, ParserMixin):
         self.defaults = defaults
         self.preserve_whitespace = preserve_whitespace
 
-    def as_raw(self, path):
+    def as_raw(self, path, value):
         keys = [str(part) for part in path]
         section = self.section or keys.pop(0)
         option = keys[0] + ''.join('[{0}]'.format(key) for key in keys[1:])
@@ -153,9 +153,13 @@ class ConfigSource(Source, ParserMixin):
                 if line.strip() == section_header:
                     break
             for line in fo:
+                if line.startswith('['):
+                    return value
                 name = re.split('[=:]', line, 1)[0].strip()
                 if not line[0].isspace() and self.config.optionxform(name) == option:
                     break
+            else:
+                return value
             for line in fo:
                 if line and not line[0].isspace():
                     break
@@ -185,6 +189,6 @@ class ConfigSource(Source, ParserMixin):
 
         # preserve white-space for mulit-line strings
         if self.preserve_whitespace and isinstance(value, six.string_types) and value.count('\n') > 0:
-            value = self.as_raw(path)
+            value = self.as_raw(path, value)
 
         return value
-- 
2.43.0


From 3b88514cfd22ff7b90dd11545784509bd3c1043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 42/62] fix: absent keys resolved to the methods of native
 containers

---
 pilo/source/default.py | 47 +++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 2d7469d..ec7d0a3 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -1,5 +1,4 @@
 import collections
-import copy
 import six
 
 from . import Source, Path, ParserMixin, NONE
@@ -7,7 +6,12 @@ from . import Source, Path, ParserMixin, NONE
 
 class DefaultPath(Path):
 
-    def _resolve(self, container, atom):
+    #: Types whose own attributes are not part of the data.
+    natives = six.string_types + six.integer_types + (
+        dict, list, tuple, float, type(None), object,
+    )
+
+    def _resolve(self, container, atom, call=False):
         if self.src.ignore(self):
             return NONE
         value = self._as_item(container, atom)
@@ -16,6 +20,8 @@ class DefaultPath(Path):
         value = self._as_alias(container, atom)
         if value is not NONE:
             return value
+        if not call and self._is_native_attr(container, atom):
+            return NONE
         return self._as_attr(container, atom)
 
     def _as_item(self, container, atom):
@@ -30,6 +36,14 @@ class DefaultPath(Path):
             return self._as_item(container, alias)
         return NONE
 
+    def _is_native_attr(self, container, atom):
+        if not isinstance(atom, six.string_types):
+            return False
+        for native in self.natives:
+            if isinstance(container, native) and hasattr(native, atom):
+                return getattr(type(container), atom, None) == getattr(native, atom)
+        return False
+
     def _as_attr(self, container, atom):
         if isinstance(atom, six.string_types):
             try:
@@ -51,27 +65,26 @@ class DefaultPath(Path):
         return ':'.join(parts)
 
     def resolve(self, container, part):
-        if isinstance(part.key, six.string_types) and part.key.endswith('()'):
+        if not isinstance(part.key, six.string_types):
+            return self._resolve(container, part.key)
+        if part.key.endswith('()'):
             value = self._as_item(container, part.key)
             if value is not NONE:
                 return value
-            part = copy.copy(part)
-            part.key = part.key[:-2]
-            value = self.resolve(container, part)
+            value = self._lookup(container, part.key[:-2], call=True)
             if value is NONE:
                 return NONE
             return value()
-
-        if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key)
-            if value is NONE:
-                value = container
-                for atom in part.key.split('.'):
-                    value = self._resolve(value, atom)
-                    if value is NONE:
-                        break
-        else:
-            value = self._resolve(container, part.key)
+        return self._lookup(container, part.key)
+
+    def _lookup(self, container, key, call=False):
+        value = self._resolve(container, key, call)
+        if value is NONE:
+            value = container
+            for atom in key.split('.'):
+                value = self._resolve(value, atom, call)
+                if value is NONE:
+                    break
         return value
 
 
-- 
2.43.0


From 55191ba465a5b44615d655ef9425abb2654cff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 43/62] fix: rewinding lost the containers a union source had
 resolved

---
 pilo/context.py         | 12 +++++-------
 pilo/source/__init__.py |  9 +++++++++
 pilo/source/mount.py    |  8 ++++++++
 pilo/source/union.py    |  9 +++++++++
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index 73e378c..ddfb8aa 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -142,13 +142,15 @@ class Context(threading.local):
             raise RewindDidNotStop()
         frames = self.stack[depth:]
         del self.stack[depth:]
+        state = None
         if self.src_path is not None:
+            state = self.src_path.save()
             for frame in frames:
                 if 'src_path' in frame:
                     break
                 if 'src' in frame:
                     self.src_path.pop()
-        return Close(functools.partial(self.restore, frames))
+        return Close(functools.partial(self.restore, frames, state))
 
     def push(self, **kwargs):
         """
@@ -164,7 +166,7 @@ class Context(threading.local):
     #: Alias for `push`.
     __call__ = push
 
-    def restore(self, frames=None):
+    def restore(self, frames=None, state=None):
         """
         """
         if frames is None:
@@ -173,11 +175,7 @@ class Context(threading.local):
                 self.src_path.pop()
         elif frames:
             if self.src_path is not None:
-                for frame in frames:
-                    if 'src_path' in frame:
-                        break
-                    if 'src' in frame:
-                        self.src_path.append(frame.src)
+                self.src_path.load(state)
             self.stack.extend(frames)
 
 
diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index fb0ba80..330ca16 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -82,6 +82,15 @@ class Path(collections.MutableSequence):
         other.parts = list(self.parts)
         return other
 
+    def save(self):
+        """
+        The state of this path, for `load`ing it later.
+        """
+        return list(self.parts)
+
+    def load(self, state):
+        self.parts = list(state)
+
     def __str__(self):
         parts = []
         if self:
diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 77a7dd6..9f0d99f 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -15,6 +15,14 @@ class MountPath(collections.MutableSequence):
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
+    def save(self):
+        return self.part, self.path.save() if self.part else None
+
+    def load(self, state):
+        self.part, path_state = state
+        if self.part:
+            self.path.load(path_state)
+
     def __copy__(self):
         other = type(self).__new__(type(self))
         other.__dict__.update(self.__dict__)
diff --git a/pilo/source/union.py b/pilo/source/union.py
index b292b6e..9dbe355 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -27,6 +27,15 @@ class UnionPath(Path):
 
     # Path
 
+    def save(self):
+        return super(UnionPath, self).save(), [path.save() for path in self.paths]
+
+    def load(self, state):
+        parts, states = state
+        super(UnionPath, self).load(parts)
+        for path, path_state in zip(self.paths, states):
+            path.load(path_state)
+
     def __copy__(self):
         other = super(UnionPath, self).__copy__()
         other.paths = [copy.copy(path) for path in self.paths]
-- 
2.43.0


From a0e8d280ba94a8a9509ee58bebbce0ca5dd113da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 44/62] fix: Dict max_keys=0 was not enforced

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 179aaa4..86c94b2 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1230,7 +1230,7 @@ class Dict(Field):
                         ', '.join(missing_keys)
                     ))
                     return False
-            if self.max_keys and len(value) > self.max_keys:
+            if self.max_keys is not None and len(value) > self.max_keys:
                 self.ctx.errors.invalid('Cannot have more than {0} key(s)'.format(
                     self.max_keys
                 ))
-- 
2.43.0


From a0e31745aae0f95ca8adab0ac444145ed177e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:17 +0000
Subject: [PATCH 45/62] fix: String length=0 was not enforced

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 86c94b2..ae0f354 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -695,7 +695,7 @@ class String(Field):
 
     def __init__(self, *args, **kwargs):
         length = kwargs.pop('length', None)
-        if length:
+        if length is not None:
             if isinstance(length, (list, tuple)):
                 self.min_length, self.max_length = length
             else:
-- 
2.43.0


From 671a3f6f4407233507de616e58c69862fed10281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:35 +0000
Subject: [PATCH 46/62] fix: a literal key with a dot was never found in a JSON
 document

---
 pilo/source/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index a9db892..08dda2f 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -25,6 +25,8 @@ class JsonPath(Path):
         try:
             if not isinstance(part.key, six.string_types) or '.' not in part.key:
                 return container[part.key]
+            if isinstance(container, dict) and part.key in container:
+                return container[part.key]
             value = container
             for atom in part.key.split('.'):
                 value = value[atom]
-- 
2.43.0


From 3418c8605defe93e64642f2dc4d8fe85d156d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:05 +0000
Subject: [PATCH 47/62] fix: a null in an earlier source hid, as an error, the
 scalar of a later one

---
 pilo/source/union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 9dbe355..2de362a 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -148,6 +148,9 @@ class Join(Source):
     def primitive(self, *types):
         if not self.paths:
             return NONE
+        for path in self.paths:
+            if not path.is_null:
+                return path.primitive(*types)
         return self.paths[0].primitive(*types)
 
     # Source
-- 
2.43.0


From e86a8a9fb6fcc237f04d57cbd547dcfacd06597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:23 +0000
Subject: [PATCH 48/62] fix: a bare field of a group was looked up below its
 own key

---
 pilo/fields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ae0f354..8e968d7 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1441,7 +1441,9 @@ class Group(Field):
                 raise ValueError(
                     'field{0}.src is not set'.format(_path(*path))
                 )
-            self.fields.append((obj.src, obj))
+            src, obj = obj.src, obj.clone()
+            obj.src = None  # its key is resolved by the group
+            self.fields.append((src, obj))
 
         def _add_tuple(obj, *path):
             if len(obj) != 2:
-- 
2.43.0


From 96ca759a1f13008278cfd53b32217b77a096e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:24 +0000
Subject: [PATCH 49/62] fix: a cloned field took the place of the field it was
 cloned from

---
 pilo/fields.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 8e968d7..dd3c66d 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -430,6 +430,7 @@ class Field(CreatedCountMixin, ContextMixin):
 
     def clone(self):
         other = copy.copy(self)
+        CreatedCountMixin.__init__(other)
         other.parent = None
         other.ignores = list(self.ignores)
         other.translations = dict(self.translations)
-- 
2.43.0


From 59f266b5ec19469785cd0762fb945eb234dbd40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:52 +0000
Subject: [PATCH 50/62] fix: map captured entries with the form they are
 captured by

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index dd3c66d..4fba6f5 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1657,7 +1657,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                 value = field.map()
                 if value not in IGNORE:
                     self[field.name] = value
-        unmapped = self._unmapped(unmapped)
+            unmapped = self._unmapped(unmapped)
         if unmapped is not None:
             self.update(unmapped)
 
-- 
2.43.0


From 13034f5c1030fc28e52086f3ca6be1122466d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:41 +0000
Subject: [PATCH 51/62] fix: Form.munge keeps tuples and time values and
 reaches forms nested in containers

---
 pilo/fields.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 4fba6f5..141b75b 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1764,6 +1764,16 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return _flatten(self)
 
     def munge(self, func):
+
+        def _munge(value):
+            if isinstance(value, Form):
+                return value.munge(func)
+            if type(value) in (list, tuple):
+                return type(value)(_munge(item) for item in value)
+            if type(value) is dict:
+                return dict((k, _munge(v)) for k, v in six.iteritems(value))
+            return value
+
         form = type(self)()
         for field in type(self).fields:
             if field.name not in self:
@@ -1773,16 +1783,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             value = func(form, field, value)
             if value is NONE:
                 continue
-            if isinstance(value, Form):
-                value = value.munge(func)
-            elif isinstance(value, (list, tuple)):
-                items = []
-                for item in value:
-                    if isinstance(item, Form):
-                        item = item.munge(func)
-                    items.append(item)
-                value = items
-            form[field.name] = value
+            form[field.name] = _munge(value)
         return form
 
     def filter(self, *tags, **kwargs):
-- 
2.43.0


From e37ace4b7bd9360ccb4162246b6e32699276e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 52/62] fix: a union location read differently once its keys or
 length had been asked

---
 pilo/source/union.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 2de362a..b7a003e 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -1,6 +1,8 @@
 import collections
 import copy
 
+import six
+
 from . import Path, PathPart, Source, NONE, DefaultSource
 
 
@@ -49,8 +51,6 @@ class UnionPath(Path):
             return all(path.is_null for path in self.value.paths)
         if isinstance(self.value, Mapping):
             return len(self.value.mappings) == 0
-        if isinstance(self.value, Sequence):
-            return len(self.value.sequences) == 0
         return False
 
     def resolve(self, container, part):
@@ -114,23 +114,19 @@ class UnionSource(Source):
         return UnionPath(self, [s.path() for s in self.srcs], merge='combine')
 
     def mapping(self, path):
-        if isinstance(path.value, Join):
-            path.value = path.value.mapping()
-        if isinstance(path.value, Mapping):
+        if isinstance(path.value, (Join, Mapping)):
             return path.value.keys()
         raise self.error(path, 'not a mapping')
 
     def sequence(self, path):
         if isinstance(path.value, Join):
-            path.value = path.value.sequence()
-        if isinstance(path.value, Sequence):
-            return len(path.value)
+            return len(path.value.sequence())
         raise self.error(path, 'not a sequence')
 
     def primitive(self, path, *types):
         if isinstance(path.value, Join):
             return path.value.primitive(*types)
-        return path.value
+        raise self.error(path, 'not a primitive')
 
 
 class Join(Source):
@@ -138,12 +134,30 @@ class Join(Source):
     def __init__(self, src, paths):
         self.src = src
         self.paths = paths
+        self._mapping = None
+        self._sequence = None
 
     def mapping(self):
-        return Mapping(self.src, self.paths)
+        if self._mapping is None:
+            self._mapping = Mapping(self.src, self.paths)
+        return self._mapping
+
+    def keys(self):
+        return self.mapping().keys()
 
     def sequence(self):
-        return Sequence(self.src, self.paths)
+        if self._sequence is None:
+            self._sequence = Sequence(self.src, self.paths)
+        return self._sequence
+
+    def __getitem__(self, key):
+        if isinstance(key, six.integer_types):
+            container = self._sequence
+        else:
+            container = self._mapping
+        if container is None:
+            raise TypeError('not opened by mapping() or sequence()')
+        return container[key]
 
     def primitive(self, *types):
         if not self.paths:
-- 
2.43.0


From c6b191cc68ad5bcc8f860635e0f7be611889fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 53/62] fix: reading a scalar as a subclass of a known type
 failed

---
 pilo/source/__init__.py | 2 +-
 pilo/source/json.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 330ca16..6148479 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -300,7 +300,7 @@ class ParserMixin(object):
 
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 08dda2f..3336e2c 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -112,7 +112,7 @@ class JsonSource(Source):
                 return self.parsers[t]
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
-- 
2.43.0


From 044ef1273eef2d26f2dd07bbf50aeafc18f20f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 54/62] fix: reading an attribute of a form with a field named
 src no longer recurses without end

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 141b75b..87da14f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -652,10 +652,13 @@ class Field(CreatedCountMixin, ContextMixin):
         if self.name in form:
             return form[self.name]
         if getattr(self.ctx, 'form', None) is None:
+            src = DefaultSource({})
+            if not isinstance(getattr(type(form), 'src', None), Field):
+                src = getattr(form, 'src', src)
             with self.ctx(
                      form=form,
                      parent=form,
-                     src=getattr(form, 'src', DefaultSource({})),
+                     src=src,
                      errors=RaiseErrors()
                  ):
                 value = self.map()
-- 
2.43.0


From 451d9db681f51b4b9fd3a6c6f417f3aa61b07fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:35 +0000
Subject: [PATCH 55/62] fix: a captured key renamed by its key field overwrote
 a declared field

---
 pilo/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 87da14f..93bbe2d 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1685,7 +1685,11 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             mapped.update([field.name, field.src])
         dict_field = Dict(*directive)
         dict_field.key_filter.attach(self)(lambda self, key: key not in mapped)
-        return dict_field.map()
+        captured = dict_field.map()
+        return dict(
+            (key, value) for key, value in six.iteritems(captured)
+            if key not in mapped
+        )
 
     def _root_map(self, src, tags, unmapped, error):
         if src is None:
-- 
2.43.0


From 00fe9762d30169f24283fd11ee063e3c53cfc073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 56/62] fix: aliases and ignored locations of a source depended
 on how much of a path was read at once

---
 pilo/source/default.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index ec7d0a3..839705a 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -11,13 +11,13 @@ class DefaultPath(Path):
         dict, list, tuple, float, type(None), object,
     )
 
-    def _resolve(self, container, atom, call=False):
-        if self.src.ignore(self):
+    def _resolve(self, container, atom, parts, call=False):
+        if self.src.ignore(parts):
             return NONE
         value = self._as_item(container, atom)
         if value is not NONE:
             return value
-        value = self._as_alias(container, atom)
+        value = self._as_alias(container, atom, parts)
         if value is not NONE:
             return value
         if not call and self._is_native_attr(container, atom):
@@ -30,8 +30,8 @@ class DefaultPath(Path):
         except (IndexError, KeyError, TypeError):
             return NONE
 
-    def _as_alias(self, container, atom):
-        if self.src.aliases and atom in self.src.aliases and len(self) == 1:
+    def _as_alias(self, container, atom, parts):
+        if self.src.aliases and atom in self.src.aliases and len(parts) == 1:
             alias = self.src.aliases[atom]
             return self._as_item(container, alias)
         return NONE
@@ -65,24 +65,26 @@ class DefaultPath(Path):
         return ':'.join(parts)
 
     def resolve(self, container, part):
+        # those up to the one being resolved, there can be more below it
+        parts = self.parts[:self.parts.index(part) + 1]
         if not isinstance(part.key, six.string_types):
-            return self._resolve(container, part.key)
+            return self._resolve(container, part.key, parts)
         if part.key.endswith('()'):
             value = self._as_item(container, part.key)
             if value is not NONE:
                 return value
-            value = self._lookup(container, part.key[:-2], call=True)
+            value = self._lookup(container, part.key[:-2], parts, call=True)
             if value is NONE:
                 return NONE
             return value()
-        return self._lookup(container, part.key)
+        return self._lookup(container, part.key, parts)
 
-    def _lookup(self, container, key, call=False):
-        value = self._resolve(container, key, call)
+    def _lookup(self, container, key, parts, call=False):
+        value = self._resolve(container, key, parts, call)
         if value is NONE:
             value = container
             for atom in key.split('.'):
-                value = self._resolve(value, atom, call)
+                value = self._resolve(value, atom, parts, call)
                 if value is NONE:
                     break
         return value
-- 
2.43.0


From a010227d515fdab7c68dfa16fe3b4433bdc1f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:31 +0000
Subject: [PATCH 57/62] fix: an unindented comment cut preserved white space
 short

---
 pilo/source/configparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 326e3dc..d32ce0c 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -161,6 +161,8 @@ class ConfigSource(Source, ParserMixin):
             else:
                 return value
             for line in fo:
+                if line[0] in '#;':
+                    continue
                 if line and not line[0].isspace():
                     break
                 lines.append(line)
-- 
2.43.0


From 4cd406c2239408171b406cc20412b1ed99f7fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:31 +0000
Subject: [PATCH 58/62] fix: an indented line that looks like a section was
 taken for the section when preserving white space

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index d32ce0c..addae98 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -150,7 +150,7 @@ class ConfigSource(Source, ParserMixin):
         with open(self.location, 'r') as fo:
             section_header = '[{0}]'.format(section)
             for line in fo:
-                if line.strip() == section_header:
+                if line.rstrip() == section_header:
                     break
             for line in fo:
                 if line.startswith('['):
-- 
2.43.0


From 32a900fb096083dfb199565e1617194457e2a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 59/62] fix: a date-time or time that cannot be ordered against
 a bound raised TypeError

---
 pilo/fields.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 93bbe2d..4920eb1 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -930,6 +930,18 @@ class RangeMixin(object):
     def between(self, l, r):
         return self.after(l).before(r)
 
+    def _validate_comparable(self, value):
+        # e.g. an aware datetime cannot be ordered against a naive bound
+        for bound in (self.after_value, self.before_value):
+            if bound is None:
+                continue
+            try:
+                value < bound
+            except TypeError as ex:
+                self.ctx.errors.invalid(str(ex))
+                return False
+        return True
+
 
 class Date(Field, RangeMixin):
 
@@ -1023,6 +1035,8 @@ class Time(Field, RangeMixin):
     def _validate(self, value):
         if not super(Time, self)._validate(value):
             return False
+        if value is not None and not self._validate_comparable(value):
+            return False
         if value is not None:
             if self.after_value is not None and value < self.after_value:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
@@ -1068,6 +1082,8 @@ class Datetime(Field, RangeMixin):
     def _validate(self, value):
         if not super(Datetime, self)._validate(value):
             return False
+        if value is not None and not self._validate_comparable(value):
+            return False
         if value is not None:
             if self.after_value is not None and value < self.after_value:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
-- 
2.43.0


From 0d8d43fa2618a558477e0ca05bbc2358d2f9e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 60/62] fix: missing required keys that are not text raised
 TypeError

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 4920eb1..1461a5a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1247,7 +1247,7 @@ class Dict(Field):
                 missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
-                        ', '.join(missing_keys)
+                        ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
             if self.max_keys is not None and len(value) > self.max_keys:
-- 
2.43.0


From 2bd92842af0fc6261d1df468c4ab757e62604cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:12 +0000
Subject: [PATCH 61/62] fix: a value that is not the only choice of a set
 raised TypeError

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 1461a5a..8b2ab18 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -791,7 +791,7 @@ class String(Field):
         if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
-                    value, self.choices[0],
+                    value, list(self.choices)[0],
                 ))
             else:
                 self.ctx.errors.invalid('"{0}" is not one of {1}'.format(
-- 
2.43.0


From 5f5073c783ea6386513b24e2c484bedafde729c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:52 +0000
Subject: [PATCH 62/62] fix: a union leaves the sequence of sources it is given
 alone

It put a source in place of each mapping in the caller's own list, and so
could not take a tuple of mappings at all.
---
 pilo/source/union.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index b7a003e..d540b8d 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -92,6 +92,7 @@ class UnionSource(Source):
         merge_depth=None,
     ):
         super(UnionSource, self).__init__()
+        srcs = list(srcs)
         for i, src in enumerate(srcs):
             if isinstance(src, Source):
                 continue
-- 
2.43.0

