From 9a4fd813c3748cabc6e3ee393d7250f63b47abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 01/45] fix: compose property types from the chosen mix-in, not
 the last one tried

---
 normalize/property/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f424f20..8522f3a 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -198,7 +198,7 @@ def create_property_type_from_traits(trait_set):
 
             if mix_in:
                 base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[other]
+                other_type = PROPERTY_TYPES[mix_in]
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-- 
2.43.0


From ec9dcdd128af807c93ba3a7455e59670df89db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 02/45] fix: read-only properties composed with other traits
 stay read-only

---
 normalize/property/meta.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 8522f3a..6145a65 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -202,7 +202,14 @@ def create_property_type_from_traits(trait_set):
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-                new_type = type(new_name, (base_type, other_type), {})
+                attrs = {}
+                if "ro" in mixed_in_product:
+                    # a read-only property stays read-only, whichever other
+                    # setters are mixed in
+                    ro_type = PROPERTY_TYPES[("ro",)]
+                    attrs['__set__'] = ro_type.__set__
+                    attrs['__delete__'] = ro_type.__delete__
+                new_type = type(new_name, (base_type, other_type), attrs)
                 stock_types[mixed_in_product] = new_type
                 made_types.append(new_type)
                 made_type = True
-- 
2.43.0


From 72750b84d39ae60ccdd6ee3cb5f05ae70d9efd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 03/45] fix: ListCollection.insert inserts the item, not the
 items in it

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index feb95fb..e80ac3e 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -375,7 +375,7 @@ class ListCollection(KeyedCollection):
             i += len(self)
         if i < 0:
             i = 0
-        self[i:i] = x
+        self[i:i] = (x,)
 
     def pop(self, i=-1):
         if i < 0:
-- 
2.43.0


From d45e8534b630d113f213314e0c4275952d745204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 04/45] fix: ListCollection.index with an end past the list
 raises ValueError

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index e80ac3e..baf09c8 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -365,7 +365,7 @@ class ListCollection(KeyedCollection):
             j += len_
             if j < 0:
                 j = 0
-        for k in range(i, j):
+        for k in range(i, min(j, len_)):
             if self[k] == x:
                 return k
         raise ValueError("%r is not in list" % x)
-- 
2.43.0


From a603be96e00dba666330aefac70fadb2be577a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 05/45] fix: ListCollection.pop raises IndexError when out of
 range

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index baf09c8..c46d8f0 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -381,7 +381,7 @@ class ListCollection(KeyedCollection):
         if i < 0:
             i += len(self)
             if i < 0:
-                i = 0
+                raise IndexError("pop index out of range")
         x = self[i]
         del self[i]
         return x
-- 
2.43.0


From 110a35e5c4f12b1061ae18c7c94fe071139745ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 06/45] fix: comparing a collection with unconvertible values
 is False

---
 normalize/coll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index c46d8f0..f13b7a7 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -119,7 +119,10 @@ class Collection(Record):
         # coerce collections derived from simple python collection types
         if not isinstance(other, type(self)) and \
                 isinstance(other, self.colltype):
-            other = type(self)(other)
+            try:
+                other = type(self)(other)
+            except exc.CoercionError:
+                return False
         return self.itemtype == getattr(other, "itemtype", None) and \
             self._values == getattr(other, "_values", None)
 
-- 
2.43.0


From 2aaf7afd0125250a6fdd46fb12ad24e3d6119933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 07/45] fix: ListCollection.coll_to_tuples numbers the items of
 a mapping

---
 normalize/coll.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index f13b7a7..603e450 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -325,6 +325,7 @@ class ListCollection(KeyedCollection):
             i = 0
             for k in sorted(coll.keys()):
                 yield (i, coll[k])
+                i += 1
         elif isinstance(coll, (collections.abc.Sequence, types.GeneratorType)) or (
             hasattr(coll, "next") and callable(coll.next)
         ) or (
-- 
2.43.0


From bafdea46fa53b211cde362acbf49b6e249007638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 08/45] fix: pickling a generic collection keeps its properties

---
 normalize/coll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 603e450..bbe7534 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -473,7 +473,10 @@ class _Generic(Collection):
     things."""
     def __reduce__(self):
         """helper method for pickling"""
-        return (_GenericPickler(type(self).generic_key), (self._values,))
+        return (
+            _GenericPickler(type(self).generic_key), (self._values,),
+            dict((k, v) for k, v in self.__dict__.items() if k != "_values"),
+        )
 
 
 def _make_generic(of, coll):
-- 
2.43.0


From b69187a9380cb10c1a1c426d44cafa78ad05aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 09/45] fix: V1Property.slot_is_empty calls its superclass

---
 normalize/property/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 6828f8b..88c9fca 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -454,7 +454,7 @@ class V1Property(SafeProperty):
     def slot_is_empty(self, obj):
         if self.v1_upgraded:
             return False
-        return super(V1Property, obj).slot_is_empty(obj)
+        return super(V1Property, self).slot_is_empty(obj)
 
     def attribute_error_hook(self):
         return self.v1_none
-- 
2.43.0


From 72bea22e581a1d9577f11e3149cfc9f05b025495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 10/45] fix: clearing an unset safe or v1 property does not
 raise KeyError

---
 normalize/property/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 88c9fca..b5a91fb 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -417,6 +417,8 @@ class SafeProperty(Property):
         it is false"""
         if self.required:
             raise exc.PropertyRequired(prop=self)
+        if self.name not in obj.__dict__:
+            raise AttributeError(self.fullname)
         del obj.__dict__[self.name]
 
 
@@ -466,7 +468,8 @@ class V1Property(SafeProperty):
             super().__set__(obj, value)
         except exc.CoercionError:
             if value is None or value == self.v1_none:
-                self.__delete__(obj)
+                if self.name in obj.__dict__ or self.required:
+                    self.__delete__(obj)
             else:
                 raise
 
-- 
2.43.0


From 92ee69231856c385d919c494e93df12082a393c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 11/45] fix: from_json converts nested plain Records by their
 JSON names

---
 normalize/record/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f571c84..afcb4fe 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -43,7 +43,10 @@ def _json_to_value_initializer(json_val, proptype):
             return json_val
         elif hasattr(proptype, "from_json"):
             return proptype.from_json(json_val)
-        elif isinstance(proptype, Record) and isinstance(json_val, dict):
+        elif isinstance(json_val, dict) and isinstance(proptype, type) and (
+            issubclass(proptype, Record) and
+            not issubclass(proptype, Collection)
+        ):
             return from_json(proptype, json_val)
 
     return json_val
-- 
2.43.0


From 50027f2762b931c051f8b59fdbe30705cacbd578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 12/45] fix: JsonRecordDict.__repr__

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index afcb4fe..e694087 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -500,7 +500,7 @@ class JsonRecordDict(RecordDict, JsonRecord):
         return to_json(self, extraneous)
 
     def __repr__(self):
-        super_repr = super(JsonRecordList, self).__repr__()
+        super_repr = super(JsonRecordDict, self).__repr__()
         return super_repr.replace("{", "values={", 1)
 
 
-- 
2.43.0


From f713b9ea43fcd16ab200344a26104b5151f45e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 13/45] fix: AutoJsonRecord attribute access, assignment and
 deletion

---
 normalize/record/json.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index e694087..f695433 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -589,19 +589,25 @@ class AutoJsonRecord(JsonRecord):
         if attr in type(self).properties:
             return type(self).properties[attr].__get__(self)
         else:
-            return self.unknown_json_keys[attr]
+            try:
+                return self.unknown_json_keys[attr]
+            except KeyError:
+                raise AttributeError(attr)
 
     def __setattr__(self, attr, value):
         if attr in type(self).properties:
-            return type(self).properties[attr].__set__(self)
+            super(AutoJsonRecord, self).__setattr__(attr, value)
         else:
-            self.unknown_json_keys[attr]
+            self.unknown_json_keys[attr] = value
 
-    def __delattr__(self, attr, value):
+    def __delattr__(self, attr):
         if attr in type(self).properties:
-            return type(self).properties[attr].__del__(self)
+            super(AutoJsonRecord, self).__delattr__(attr)
         else:
-            del self.unknown_json_keys[attr]
+            try:
+                del self.unknown_json_keys[attr]
+            except KeyError:
+                raise AttributeError(attr)
 
 
 class NCAutoJsonRecord(AutoJsonRecord):
-- 
2.43.0


From 0e358d3c46ce8db03b4e049eb8455e717180aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 14/45] fix: subscripting a MultiFieldSelector with an index
 honors the wildcard

---
 normalize/selector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 45d9ae2..60579f0 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -717,10 +717,7 @@ class MultiFieldSelector(object):
             else:
                 return self  # XXX wat
 
-        tail = (
-            self.heads[None] if self.complete else
-            self.heads.get(index, None)
-        )
+        tail = self.heads.get(None if self.has_none else index, None)
         return type(self).complete_mfs() if tail == all else tail
 
     def __contains__(self, index):
-- 
2.43.0


From 92d84df6cd5b94e05e9eda232c504d86c2dda136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 15/45] fix: MultiFieldSelector.delete of several list items

---
 normalize/selector.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 60579f0..09dac97 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -858,7 +858,12 @@ class MultiFieldSelector(object):
                 except FieldSelectorException:
                     raise
 
-        for fs in self:
+        # delete the highest indices first; the lower ones are not affected
+        for fs in sorted(
+            self, reverse=True, key=lambda fs: [
+                x if isinstance(x, int) else -1 for x in fs.selectors
+            ],
+        ):
             try:
                 fs.delete(obj)
             except FieldSelectorException:
-- 
2.43.0


From 33b82725472a89de4645b5a192b59cb3fdd21e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 16/45] fix: FieldSelector and MultiFieldSelector paths can be
 parsed back

---
 normalize/selector.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 09dac97..248b8b2 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -504,7 +504,7 @@ def _fmt_selector_path(selector):
         return "[%d]" % selector
     elif selector is None:
         return "[*]"
-    elif not re.match(r'^[a-zA-Z_]\w*$', selector):
+    elif not re.match(r'^[a-zA-Z_]\w*\Z', selector):
         return u"['%s']" % selector.replace("\\", "\\\\").replace("'", "\\'")
     else:
         return ".%s" % selector
@@ -513,11 +513,11 @@ def _fmt_selector_path(selector):
 _PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]''',
-    re.X,
+    re.X | re.S,
 )
 
 
@@ -531,7 +531,7 @@ def _scan_selector_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
@@ -922,13 +922,13 @@ class MultiFieldSelector(object):
 _MFS_PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]|
         (?P<branch>[()|])
         ''',
-    re.X,
+    re.X | re.S,
 )
 
 
@@ -960,7 +960,7 @@ def _scan_mfs_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
-- 
2.43.0


From f8410b85486f5421838c1d581b72a3e6a1b63df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 17/45] fix: FieldSelector.startswith with a longer argument is
 False

---
 normalize/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 248b8b2..1158656 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -472,13 +472,13 @@ class FieldSelector(object):
                 that passed.
         """
         if isinstance(key_or_fs, (FieldSelector, list, tuple)):
-            return all(
+            return len(key_or_fs) <= len(self.selectors) and all(
                 key_or_fs[i] == self.selectors[i] for i in range(
                     0, len(key_or_fs),
                 )
             )
         else:
-            return self.selectors[0] == key_or_fs
+            return self.selectors[:1] == [key_or_fs]
 
     @property
     def path(self):
-- 
2.43.0


From 7b9637545d383b59fa773c95fe9b7d577c433d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 18/45] fix: FieldSelector.post through a wildcard passes the
 value on

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 1158656..ae86e31 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -255,7 +255,7 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r) for r in record)
+                return sum(sub_field_selector.post(r, value) for r in record)
 
             # supports the case where an item is created by setting
             # a single required field value
-- 
2.43.0


From ffc30a805f3a379779e9fec4b07c3a297d221dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 19/45] fix: equal FieldSelectors have equal hashes

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index ae86e31..433976b 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -368,7 +368,7 @@ class FieldSelector(object):
         return self.selectors == other.selectors
 
     def __hash__(self):
-        return super(FieldSelector, self).__hash__()
+        return hash(tuple(self.selectors))
 
     def __ne__(self, other):
         """
-- 
2.43.0


From 1e2a844efefc0e8b93c425e48a0a9158cdb1e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 20/45] fix: FieldSelector raises FieldSelectorException for
 missing keys

---
 normalize/selector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 433976b..7f10e02 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -160,7 +160,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -221,7 +221,7 @@ class FieldSelector(object):
                 if _try_index(record, selector):
                     try:
                         sub_record = record[selector]
-                    except IndexError:
+                    except LookupError:
                         raise FieldSelectorException(
                             "Could not find Record specified by index: %s." %
                             selector
@@ -337,7 +337,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -353,7 +353,10 @@ class FieldSelector(object):
                 else:
                     record[:] = ()
             else:
-                del record[to_delete]
+                try:
+                    del record[to_delete]
+                except LookupError:
+                    raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
                 delattr(record, to_delete)
-- 
2.43.0


From ddef1e61c8c462625574d57d27c42842d16375fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 21/45] fix: property types made with trait arguments as
 defaults can be declared

make_property_type(..., json_name=...) on a plain base composed a type whose
JsonProperty constructor ran before the defaults were filled in whenever the
made trait sorted after the mixed-in one, so declaring it raised TypeError.
---
 normalize/property/meta.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 6145a65..9a91a71 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -209,7 +209,12 @@ def create_property_type_from_traits(trait_set):
                     ro_type = PROPERTY_TYPES[("ro",)]
                     attrs['__set__'] = ro_type.__set__
                     attrs['__delete__'] = ro_type.__delete__
-                new_type = type(new_name, (base_type, other_type), attrs)
+                bases = (base_type, other_type)
+                if getattr(other_type, "default_kwargs", None):
+                    # its defaults must be filled in before the constructor
+                    # which accepts them is called
+                    bases = (other_type, base_type)
+                new_type = type(new_name, bases, attrs)
                 stock_types[mixed_in_product] = new_type
                 made_types.append(new_type)
                 made_type = True
-- 
2.43.0


From 88591dd749dcd80674828b9825937bc601cca1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 22/45] fix: records with an empty collection slot can be
 hashed

---
 normalize/identity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 759fe23..0f6efaf 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -97,7 +97,8 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                         val_pk = pk
                         set_elements = pk_elements
 
-            val_pk = val_pk or val
+            if not val_pk and not isinstance(val, normalize.coll.Collection):
+                val_pk = val
             try:
                 val_pk.__hash__()
             except TypeError:
-- 
2.43.0


From fec5fe34a8119d09fba71a08853c93529909352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 23/45] fix: DictCollection no longer drops values it cannot
 unpack

---
 normalize/coll.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index bbe7534..6ab1fa6 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -224,7 +224,10 @@ class DictCollection(KeyedCollection):
                 passed=coll,
                 colltype=cls,
             )
-        if isinstance(coll, collections.abc.Mapping):
+        if isinstance(coll, Collection):
+            for k, v in coll.itertuples():
+                yield k, v
+        elif isinstance(coll, collections.abc.Mapping):
             for k, v in coll.items():
                 yield k, v
         elif isinstance(coll, collections.abc.Sequence):
@@ -241,6 +244,11 @@ class DictCollection(KeyedCollection):
                 else:
                     yield (i, v)
                 i += 1
+        elif coll:
+            raise exc.CollectionCoerceError(
+                passed=coll,
+                colltype=cls,
+            )
 
     def itertuples(self):
         return iter(self._values.items())
-- 
2.43.0


From 40047cbc5385d8eeedae5be0eb28c9c9966a2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 24/45] fix: AutoJsonRecord.json_data keeps the keys of nested
 records

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f695433..6e7b628 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -582,7 +582,7 @@ class AutoJsonRecord(JsonRecord):
                 for k, v in self.unknown_json_keys.items():
                     k = type(self).convert_json_key_out(k)
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
+                        jd[k] = _json_data(v, extraneous)
         return jd
 
     def __getattr__(self, attr):
-- 
2.43.0


From 1419ca7df916d01a4bab1026d652a82fc0de7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 25/45] fix: FieldSelector refuses false values of other types

---
 normalize/selector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 7f10e02..5c28129 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -70,10 +70,9 @@ class FieldSelector(object):
                 expr_selectors = list(expr)
 
             # Validate the selector
-            if any(
-                e for e in expr_selectors if not (
-                    isinstance(e, str) or isinstance(e, int) or e is None
-                )
+            if not all(
+                isinstance(e, str) or isinstance(e, int) or e is None
+                for e in expr_selectors
             ):
                 raise ValueError(
                     "FieldSelectors can only contain ints/longs, "
-- 
2.43.0


From 7f85caa647fbb631ff86c029e05c5b6727779da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 26/45] fix: FieldSelector.post creates missing collections for
 keyed items

---
 normalize/selector.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 5c28129..a218fb1 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -39,6 +39,14 @@ def _try_index(instance, selector):
     return False
 
 
+def _known_kwargs(type_, kwargs):
+    # keys of a collection are not properties, so can't be set on construction
+    properties = getattr(type_, "properties", None)
+    return kwargs if properties is None else dict(
+        (k, v) for k, v in kwargs.items() if k in properties
+    )
+
+
 @functools.total_ordering
 class FieldSelector(object):
     """
@@ -259,8 +267,9 @@ class FieldSelector(object):
             # supports the case where an item is created by setting
             # a single required field value
             kwarg = {}
-            if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:
-                kwarg[self.selectors[-1]] = value
+            final = self.selectors[-1]
+            if i >= len(self.selectors) - 2 and isinstance(final, str):
+                kwarg[final] = value
 
             if _try_index(record, selector):
                 try:
@@ -272,14 +281,18 @@ class FieldSelector(object):
                                 "FieldSelector set out of order: "
                                 "[%d]" % selector
                             )
-                        record.append(type(record).itemtype(**kwarg))
+                        itemtype = type(record).itemtype
+                        kwarg = _known_kwargs(itemtype, kwarg)
+                        record.append(itemtype(**kwarg))
                         if kwarg:
                             put_final = True
                     else:
                         raise
                     record = record[selector]
                 except KeyError:
-                    record[selector] = type(record).itemtype(**kwarg)
+                    itemtype = type(record).itemtype
+                    kwarg = _known_kwargs(itemtype, kwarg)
+                    record[selector] = itemtype(**kwarg)
                     if kwarg:
                         put_final = True
             else:
@@ -290,6 +303,7 @@ class FieldSelector(object):
                             "Must specify default= or isa= to auto-vivify "
                             "%s" % prop
                         )
+                    kwarg = _known_kwargs(prop.valuetype, kwarg)
                     setattr(record, selector, prop.valuetype(**kwarg))
                     if kwarg:
                         put_final = True
-- 
2.43.0


From 01b963e509adc9e28428f278caae60a71bcd1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 27/45] fix: FieldSelector.post descends into dict items it
 creates

---
 normalize/selector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index a218fb1..4739479 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -295,6 +295,7 @@ class FieldSelector(object):
                     record[selector] = itemtype(**kwarg)
                     if kwarg:
                         put_final = True
+                    record = record[selector]
             else:
                 if not hasattr(record, selector):
                     prop = type(record).properties[selector]
-- 
2.43.0


From bcafc787b015905853b9ab753f6cc42030dd9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 28/45] fix: MultiFieldSelector with a complete part is
 complete

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 4739479..59f075c 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -613,7 +613,7 @@ class MultiFieldSelector(object):
         self.heads = dict(
             (head, all if all in tail else MultiFieldSelector(*tail))
             for head, tail in heads.items()
-        ) if None not in heads or heads[None] is not all else {None: all}
+        ) if None not in heads or all not in heads[None] else {None: all}
 
         # sanity assertions follow
         head_types = set(type(x) for x in self.heads)
-- 
2.43.0


From abcc1742608a80eee4b3f58f02d21208d7199485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 29/45] fix: diff of lists and dicts holding unhashable values

---
 normalize/diff.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index aa36428..8b1e098 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -789,6 +789,25 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                 )
 
 
+def _hashable(value):
+    """Returns a stand-in for values which can't be hashed, such that equal
+    values have equal stand-ins"""
+    try:
+        hash(value)
+        return value
+    except TypeError:
+        pass
+    if isinstance(value, (list, tuple)):
+        kind = list if isinstance(value, list) else tuple
+        return kind, tuple(_hashable(x) for x in value)
+    elif isinstance(value, dict):
+        return dict, frozenset((k, _hashable(x)) for k, x in value.items())
+    elif isinstance(value, set):
+        return frozenset(value)
+    else:
+        return repr(value)
+
+
 def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                       options=None):
     """Generator for comparing 'simple' lists when they are encountered.  This
@@ -812,8 +831,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = i
@@ -897,8 +915,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = k
-- 
2.43.0


From ea944a1aed268fe3d6ce782ff5cdb90a2819b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 30/45] fix: diff reports collection items of different types
 as modified

---
 normalize/diff.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 8b1e098..d58dc7b 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -590,6 +590,18 @@ def _fuzzy_match(set_a, set_b):
 # There's a lot of repetition in the following code.  It could be served by one
 # function instead of 3, which would be 3 times fewer places to have bugs, but
 # it would probably also be more than 3 times as difficult to debug.
+def _item_diff_iter(a_val, b_val, fs_a, fs_b, options):
+    """Compares two items of a collection.  As with slots, items of different
+    types are reported as modified, without descending further."""
+    if not options.duck_type and type(a_val) != type(b_val) and not (
+        a_val is _nothing or b_val is _nothing
+    ):
+        return iter([
+            DiffInfo(diff_type=DiffTypes.MODIFIED, base=fs_a, other=fs_b),
+        ])
+    return _diff_iter(a_val, b_val, fs_a, fs_b, options)
+
+
 def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                             options=None):
     """Generator function to compare two collections, and yield differences.
@@ -676,8 +688,8 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         for key in shared_keys:
             if (isinstance(propval_a, collections.abc.Iterable) and
                isinstance(propval_b, collections.abc.Iterable)):
-                diffs = _diff_iter(propval_a[key], propval_b[key],
-                                   fs_a + [key], fs_b + [key], options)
+                diffs = _item_diff_iter(propval_a[key], propval_b[key],
+                                        fs_a + [key], fs_b + [key], options)
 
                 for diff in diffs:
                     yield diff
@@ -715,7 +727,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                         b_val = _nothing
                 selector_a = fs_a + a_key
                 selector_b = fs_b + b_key
-                for diff in _diff_iter(
+                for diff in _item_diff_iter(
                     a_val, b_val, selector_a, selector_b, options,
                 ):
                     yield diff
@@ -731,7 +743,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                     selector_a = fs_a + a_key
                     selector_b = fs_b + b_key
                     any_diffs = False
-                    for diff in _diff_iter(
+                    for diff in _item_diff_iter(
                         a_val, b_val, selector_a, selector_b, options,
                     ):
                         if diff.diff_type != DiffTypes.NO_CHANGE:
-- 
2.43.0


From b7b03228ec467279012339190fc58f4d63854a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 31/45] fix: FieldSelector reaches properties of list
 collections

---
 normalize/selector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index 59f075c..d15b060 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -34,6 +34,10 @@ def _try_index(instance, selector):
         return False
     if isinstance(selector, int):
         return True
+    if isinstance(instance, ListCollection) and (
+            selector in type(instance).properties):
+        # lists have no string keys: this is a property of the collection
+        return False
     if getattr(instance, "__getitem__", False):
         return True
     return False
-- 
2.43.0


From dbcd4595a2ea4a34b96370500f1ff37942816023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 32/45] fix: visiting something other than the collection
 raises VisitorUnpackError

---
 normalize/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 2e42d87..87a477a 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -232,7 +232,7 @@ class VisitorPattern(object):
                 else:
                     raise exc.VisitorUnpackError(
                         passed=value,
-                        colltype=value_type.colltype.__name__,
+                        colltype=value_type.colltype,
                         context=visitor,
                     )
         else:
-- 
2.43.0


From b4cee47764ed1d9793c98a0135090378439f1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 33/45] fix: apply_empty_slots applies to empty record slots

---
 normalize/visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 87a477a..798706d 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -696,7 +696,10 @@ class VisitorPattern(object):
         # those who don't declare their isa= for complex object types.
         value_type = prop.valuetype or type(value)
 
-        if isinstance(value_type, tuple):
+        if isinstance(value, (AttributeError, KeyError)):
+            # apply_empty_slots: there is nothing to unpack
+            mapped = visitor.apply(value, prop, visitor)
+        elif isinstance(value_type, tuple):
             mapped = cls.map_type_union(
                 visitor, value, value_type, prop,
             )
-- 
2.43.0


From 8619c61c20dda6673d8ea3a36ab53c12966b6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 34/45] fix: cast of a type union tries the next type when one
 does not fit

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 16a1fa9..64067c5 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -466,7 +466,7 @@ class VisitorPropError(VisitorException):
     )
 
 
-class VisitorGrokRecordError(VisitorException):
+class VisitorGrokRecordError(VisitorException, TypeError):
     message = (
         u"{val} found where I'm expecting to unpack a "
         u"{record_type_name} record at {field_selector}"
-- 
2.43.0


From a6e5e7722c19e800b1aaa126f8f313ed43f972c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 35/45] fix: empty placeholders know of inherited special
 methods

---
 normalize/empty.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index c631ef7..c41c141 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -32,6 +32,12 @@ def itertypes(iterable):
                 yield entry
 
 
+def _defines(type_, name):
+    """Whether instances of ``type_`` have the given special method, looking
+    at the classes it derives from, too (but not its metaclass)"""
+    return any(name in x.__dict__ for x in type_.__mro__)
+
+
 class EmptyVal(object):
     """Empty Value placeholder for a given tuple of types.  This object's
     ``__nonzero__`` always returns ``False``, and it knows how to infer types
@@ -64,7 +70,7 @@ class EmptyVal(object):
             for type_ in self._typetuple:
                 prop = getattr(type_, attr_name, None)
                 if prop is None:
-                    if '__getattr__' in type_.__dict__:
+                    if _defines(type_, '__getattr__'):
                         attrs_found.append(None)
                 else:
                     attrs_found.append(prop)
@@ -98,7 +104,7 @@ class EmptyVal(object):
         if self._typetuple is any:
             return self
         for type_ in self._typetuple:
-            if type_.__dict__.get("__call__", False):
+            if _defines(type_, "__call__"):
                 return placeholder(any)
         raise self._exc('NotCallable')
 
@@ -113,7 +119,7 @@ class EmptyVal(object):
                 is_coll = issubclass(type_, normalize.coll.Collection)
                 if is_coll:
                     coll_types.append(type_.itemtype)
-                elif '__getitem__' in type_.__dict__:
+                elif _defines(type_, '__getitem__'):
                     coll_types.append(any)
 
             if not coll_types:
-- 
2.43.0


From dca6092564832885f285b061c0b94b9ae9b5e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 36/45] fix: FieldSelectorAttributeError knows the name it was
 raised with

---
 normalize/exc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/exc.py b/normalize/exc.py
index 64067c5..ec7130f 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -250,6 +250,11 @@ class EmptySignatureError(PropertyDefinitionError):
 class FieldSelectorAttributeError(FieldSelectorException, AttributeError):
     message = "Could not find property specified by name: {name}"
 
+    def __init__(self, *args, **kwargs):
+        super(FieldSelectorAttributeError, self).__init__(*args, **kwargs)
+        # AttributeErrors have a 'name' of their own, which would hide this
+        self.name = kwargs["name"]
+
 
 class FieldSelectorKeyError(FieldSelectorException, KeyError):
     message = "Could not find Record specified by index: {key}"
-- 
2.43.0


From 0f781f63627fb192c0b50de3a7bc7a58dc9b053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 37/45] fix: unknown names in primary_key raise
 PropertiesNotKnown

---
 normalize/record/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 398ba4e..819d16d 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -69,7 +69,7 @@ class RecordMeta(type):
             if proplist:
                 for prop in proplist:
                     if isinstance(prop, str):
-                        prop = properties[prop]
+                        prop = properties.get(prop, prop)
                     if not isinstance(prop, Property) or (
                         prop not in all_properties
                     ):
-- 
2.43.0


From b10b69987d8ae785630caf58046be5669d0c7a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 38/45] fix: unhashable v1_none raises a definition error

---
 normalize/exc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/exc.py b/normalize/exc.py
index ec7130f..53ea54a 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -305,6 +305,10 @@ class MultipleInheritanceClash(SubclassError):
     )
 
 
+class NoneMutable(PropertyDefinitionError):
+    message = "v1_none must be hashable; got {passed!r}"
+
+
 class NotCallable(EmptyAttributeError, TypeError):
     message = (
         "No types in ({typenames}) support invoking"
-- 
2.43.0


From b23c08651972d197c6fc72c2ba16d5659e7fb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 39/45] fix: ambiguous declaration arguments raise a definition
 error

---
 normalize/exc.py           | 7 +++++++
 normalize/property/meta.py | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 53ea54a..f7f4d8f 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -132,6 +132,13 @@ class AmbiguousConstruction(UsageException):
     message = "only init_dict or kwargs may be specified"
 
 
+class AmbiguousPropertyTraitArg(PropertyDefinitionError):
+    message = (
+        "Argument '{trait_arg}' is accepted by more than one kind of "
+        "Property; could be: {could_be}"
+    )
+
+
 class BadAssignment(EmptyAttributeError, TypeError):
     message = (
         "Can't assign to the empty placeholder for ({typenames})"
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 9a91a71..231c1bd 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -72,7 +72,7 @@ def has(selfie, self, args, kwargs):
                 raise exc.AmbiguousPropertyTraitArg(
                     trait_arg=argname,
                     could_be=" ".join(
-                        sorted(x.__name__ for x in implies_traits)
+                        sorted(",".join(x) for x in implies_traits)
                     ),
                     matched_traits=implies_traits,
                 )
-- 
2.43.0


From 7f9eb5925bad0bb67d7aa40bb8e07f07f303dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 40/45] fix: a lazy slot declared without a default stored an
 internal marker when read

---
 normalize/property/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index b5a91fb..a436ea9 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -362,14 +362,16 @@ class LazyProperty(Property):
         if obj is None:
             return self
 
-        if self.name not in obj.__dict__:
+        if self.name not in obj.__dict__ and self.default is not _none:
             value = self.get_default(obj)
             obj.__dict__[self.name] = self.type_safe_value(value)
 
         return super(LazyProperty, self).__get__(obj, type_)
 
     def slot_is_empty(self, obj):
-        return False
+        return self.default is _none and super(
+            LazyProperty, self
+        ).slot_is_empty(obj)
 
 
 class ROProperty(Property):
-- 
2.43.0


From 6e3ae1cb4d697b2297cd26879c93135ef1bc5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 41/45] fix: DictCollection.update with a bad item changes
 nothing

---
 normalize/coll.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 6ab1fa6..e467e1c 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -281,15 +281,19 @@ class DictCollection(KeyedCollection):
         return self._values.popitem()
 
     def update(self, iterable=None, **kw):
+        # convert everything before changing anything
+        values = {}
         keys = getattr(iterable, "keys", None)
         if keys and callable(keys):
             for k in list(iterable.keys()):
-                self[k] = self.coerce_value(iterable[k])
+                values[k] = self.coerce_value(iterable[k])
         elif iterable is not None:
             for k, v in iterable:
-                self[k] = self.coerce_value(v)
+                values[k] = self.coerce_value(v)
         for k, v in list(kw.items()):
-            self[k] = self.coerce_value(v)
+            values[k] = self.coerce_value(v)
+        for k, v in values.items():
+            self[k] = v
 
     def __repr__(self):
         """Implemented: prints a valid constructor.
-- 
2.43.0


From a6df41c04bd71981cc4822a114cd8ebd1354449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 42/45] fix: ListCollection.extend with a bad item changes
 nothing

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index e467e1c..fc153eb 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -364,7 +364,7 @@ class ListCollection(KeyedCollection):
         """Adds new values to the end of the collection, coercing items.
         """
         # perhaps: self[len(self):len(self)] = iterable
-        self._values.extend(self.coerce_value(item) for item in iterable)
+        self._values.extend([self.coerce_value(item) for item in iterable])
 
     def count(self, value):
         return self._values.count(value)
-- 
2.43.0


From 1499afa8311f5fdf7529a7e579610b471f530b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 43/45] fix: a JSON key which several slots are read from
 raised KeyError

---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 6e7b628..b64f87d 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -102,10 +102,10 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                             )
                         except Exception as e:
                             raise _box_ingress_error(json_name, e)
-                    unknown_keys.remove(json_name)
+                    unknown_keys.discard(json_name)
         elif prop.name in json_struct:
             json_val = json_struct[prop.name]
-            unknown_keys.remove(prop.name)
+            unknown_keys.discard(prop.name)
             if prop.name not in kwargs:
                 proptype = prop.valuetype
                 try:
-- 
2.43.0


From 1da9e1710f1a25e8ff4c008870eb7580cb5c29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:54 +0000
Subject: [PATCH 44/45] fix: a missing tuple is reported as missing by
 ListCollection.index

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index fc153eb..b5d839c 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -384,7 +384,7 @@ class ListCollection(KeyedCollection):
         for k in range(i, min(j, len_)):
             if self[k] == x:
                 return k
-        raise ValueError("%r is not in list" % x)
+        raise ValueError("%r is not in list" % (x,))
 
     def insert(self, i, x):
         if i < 0:
-- 
2.43.0


From 187afbbdcd912c1b1c1f55e69b4880421b06084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:56 +0000
Subject: [PATCH 45/45] fix: an error raised with a tuple argument can be
 printed by repr

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index f7f4d8f..53344ea 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -68,7 +68,7 @@ class StringFormatException(NormalizeError):
         return "%s%s(%s)" % (
             "exc." if self.__module__.endswith(".exc") else "",
             type(self).__name__, ", ".join(
-                tuple("%r" % x for x in self.args) +
+                tuple(repr(x) for x in self.args) +
                 tuple("%s=%r" % (k, v) for k, v in self.kwargs.items())
             )
         )
-- 
2.43.0

