From 10ea12914861ab8231a78795ca596c18d57fd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 001/120] fix: only turn a text into a class when it names a
 class

---
 dessia_common/utils/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 7242719..700bb09 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -37,7 +37,8 @@ def is_classname_transform(string: str) -> Union[type, bool]:
             # If len < 2, there is no module to import from
             try:
                 class_ = get_python_class_from_class_name(string)
-                return class_
+                # Modules also hold functions, constants... which are not classes
+                return class_ if isinstance(class_, type) else False
             except (AttributeError, TypeError, ModuleNotFoundError, SyntaxError):
                 return False
     return False
-- 
2.43.0


From 1181591f10c2ace223d6222da38cb141af010517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:34 +0000
Subject: [PATCH 002/120] fix: measures of different units are not merged when
 serialized with pointers

---
 dessia_common/serialization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 7fa8e8f..f9cd346 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -163,6 +163,9 @@ def serialize_with_pointers(value, memo=None, path='#', id_method=True, id_memo=
     # Objects (DessiaObjects and Regular)
     if isinstance(value, type):
         serialized = serialize_annotation(value)
+    elif isinstance(value, Measure):
+        # Measures are values: they compare as floats, whatever their unit, and must not share a reference
+        serialized = value.to_dict()
     elif hasattr(value, 'to_dict'):
         if value in memo:
             return _find_in_memo(memo, value, id_memo)
-- 
2.43.0


From 96da8e62761a75d5b087109c5e2eaf46cdc6dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 003/120] fix: a tuple argument holding referenced objects is
 still a tuple once deserialized

---
 dessia_common/serialization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index f9cd346..cba3fc2 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -345,7 +345,11 @@ def dict_to_object(dict_, class_=None, force_generic: bool = False, global_dict=
         key_path = f'{path}/{key}'
 
         if key_path in pointers_memo:
-            subobjects[key] = pointers_memo[key_path]
+            subobject = pointers_memo[key_path]
+            if isinstance(subobject, list) and get_origin(annotation) is tuple:
+                # Pointers are dereferenced without annotation: sequences are then lists
+                subobject = tuple(subobject)
+            subobjects[key] = subobject
         else:
             subobjects[key] = deserialize(value, annotation, global_dict=global_dict,
                                           pointers_memo=pointers_memo, path=key_path)  # , enforce_pointers=False)
-- 
2.43.0


From 8c5d472d22a2107136136bcd5fda3d5beef3c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:43 +0000
Subject: [PATCH 004/120] fix: dictionaries with extra keys are not equal on
 data equality

---
 dessia_common/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 3e21c2f..a407da4 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1189,6 +1189,9 @@ def data_eq(value1, value2):
 
 def dict_data_eq(dict1, dict2):
     """ Returns True if two dictionaries are equal on data equality, False otherwise. """
+    if len(dict1) != len(dict2):
+        return False
+
     for key, value in dict1.items():
         if key not in dict2:
             return False
-- 
2.43.0


From 83b7b1b71885272effc82817ed1f2178ab150d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:03 +0000
Subject: [PATCH 005/120] fix: comparing an object with an unhashable value
 does not raise

---
 dessia_common/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index a407da4..be32354 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -120,11 +120,12 @@ class DessiaObject(SerializableObject):
         Behavior can be controlled by class attribute _eq_is_data_eq to tell if we must use python equality (based on
         memory addresses) (_eq_is_data_eq = False) or a data equality (True).
         """
-        if hash(self) != hash(other_object):
-            return False
         if self._eq_is_data_eq:
+            # Classes are compared first, as other object might not be hashable
             if self.__class__.__name__ != other_object.__class__.__name__:
                 return False
+            if hash(self) != hash(other_object):
+                return False
             return self._data_eq(other_object)
         return object.__eq__(self, other_object)
 
-- 
2.43.0


From 9a14876b15c77d382ca92be791d5b50f388f91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:00 +0000
Subject: [PATCH 006/120] fix: comparing a numpy number with a value which is
 not a number does not raise

---
 dessia_common/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index be32354..cfab01d 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1146,6 +1146,11 @@ def data_eq(value1, value2):
     if is_sequence(value1) and is_sequence(value2):
         return sequence_data_eq(value1, value2)
 
+    if isinstance(value1, (npy.int64, npy.float64)) or isinstance(value2, (npy.int64, npy.float64)):
+        if not all(isinstance(value, (int, float, npy.int64)) for value in (value1, value2)):
+            # A number can only be equal to another number
+            return False
+
     if isinstance(value1, npy.int64) or isinstance(value2, npy.int64):
         return value1 == value2
 
-- 
2.43.0


From e65ce4f680ad686d47ae8b750f957f5650ec2e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:21 +0000
Subject: [PATCH 007/120] fix: copies keep the value of keyword-only arguments

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index cfab01d..18d69c0 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -337,7 +337,7 @@ class DessiaObject(SerializableObject):
             _fullargsspec_cache[class_name] = class_argspec
 
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 value = self.__dict__[arg]
                 if hasattr(value, '__copy__'):
@@ -358,7 +358,7 @@ class DessiaObject(SerializableObject):
         if memo is None:
             memo = {}
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 dict_[arg] = deepcopy_value(getattr(self, arg), memo=memo)
         return self.__class__(**dict_)
-- 
2.43.0


From fc75f67c8aad1ce38e3e10ec9ae955bb8f2f3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:44 +0000
Subject: [PATCH 008/120] fix: a deep-copied tuple is a tuple

---
 dessia_common/utils/copy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index e07c432..861a599 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -95,6 +95,8 @@ def deepcopy_sequence(seq_value, memo):
     for value in seq_value:
         copied_value = deepcopy_value(value, memo=memo)
         copied_list.append(copied_value)
+    if isinstance(seq_value, tuple):
+        return tuple(copied_list)
     return copied_list
 
 
-- 
2.43.0


From 3a93797c3f51d1e23d0466ae45cafd29a1c27ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:05 +0000
Subject: [PATCH 009/120] fix: diff reports keys of both sides, and keeps the
 order of compared values

---
 dessia_common/utils/diff.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index 043c9a0..d303536 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -121,13 +121,8 @@ def diff(value1, value2, path='#'):
         if value1._data_eq(value2):
             return Diff([], [], [])
 
-        # Use same code snippet as in data_eq
-        eq_dict = value1._serializable_dict()
-        if 'name' in eq_dict:
-            del eq_dict['name']
-
-        other_eq_dict = value2._serializable_dict()
-        return dict_diff(eq_dict, other_eq_dict, path=path)
+        # Compare what data_eq compares
+        return dict_diff(value1._data_eq_dict(), value2._data_eq_dict(), path=path)
 
     if value1 == value2:
         return Diff([], [], [])
@@ -139,21 +134,16 @@ def dict_diff(dict1, dict2, path='#'):
     """ Returns diff between two dictionaries. """
     diff_object = Diff([], [], [])
 
-    dict_ = dict1
-    other_dict = dict2
-    first_object = False
-    if len(dict2) > len(dict1):
-        dict_ = dict2
-        other_dict = dict1
-        first_object = True
-    for key, value in dict_.items():
+    for key, value in dict1.items():
         path_key = f'{path}/{key}'
-        if key not in other_dict:
-            diff_object.missing_attributes.append(MissingAttribute(path=path_key,
-                                                                   missing_in_first_object=first_object))
+        if key not in dict2:
+            diff_object.missing_attributes.append(MissingAttribute(path=path_key, missing_in_first_object=False))
         else:
-            diff_key = diff(value, other_dict[key], path=path_key)
+            diff_key = diff(value, dict2[key], path=path_key)
             diff_object += diff_key
+    for key in dict2:
+        if key not in dict1:
+            diff_object.missing_attributes.append(MissingAttribute(path=f'{path}/{key}', missing_in_first_object=True))
     return diff_object
 
 
-- 
2.43.0


From 50c8c80ad8191b3352d984a253e50da7d36e5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:53 +0000
Subject: [PATCH 010/120] fix: diff compares types both ways and handles
 classes

---
 dessia_common/utils/diff.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index d303536..ba6225e 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -101,7 +101,11 @@ def diff(value1, value2, path='#'):
     if is_sequence(value1) and is_sequence(value2):
         return sequence_diff(value1, value2, path=path)
 
-    if not isinstance(value1, type(value2)):
+    same_types = isinstance(value1, type(value2)) or isinstance(value2, type(value1))
+    if same_types and hasattr(value1, '_data_eq'):
+        # Objects of different classes are never equal, even if one inherits from the other
+        same_types = value1.__class__ is value2.__class__
+    if not same_types:
         invalid_types.append(DifferentType(path, value1, value2))
         return Diff(diff_values, missing_keys_in_other_object, invalid_types)
 
@@ -115,6 +119,11 @@ def diff(value1, value2, path='#'):
     if isinstance(value1, dict):
         return dict_diff(value1, value2, path=path)
 
+    if isinstance(value1, type):
+        if value1 is not value2:
+            diff_values.append(DifferentValues(path, value1, value2))
+        return Diff(diff_values, missing_keys_in_other_object, invalid_types)
+
     # Should be object
     if hasattr(value1, '_data_eq'):
         # DessiaObject
-- 
2.43.0


From 8faf1453737f708180b8c527263dec6c0d04a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:40 +0000
Subject: [PATCH 011/120] fix: setting a value from a path replaces it when its
 key is an integer

---
 dessia_common/utils/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index 513c6d3..80a7581 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -188,6 +188,9 @@ def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
     if is_sequence(last_object):
         last_object[int(last_segment)] = value
     elif isinstance(last_object, dict):
+        if last_segment not in last_object and last_segment.isdigit() and int(last_segment) in last_object:
+            # Keys may be integers, as when getting a value
+            last_segment = int(last_segment)
         last_object[last_segment] = value
     else:
         setattr(last_object, last_segment, value)
-- 
2.43.0


From 4f79c3171d98520751e444bd21b26d3aa52f7eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:59 +0000
Subject: [PATCH 012/120] fix: objects of a referenced object keep their
 sharing when serialized

---
 dessia_common/serialization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index cba3fc2..48655ed 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -242,9 +242,14 @@ def add_references(dict_, memo, id_memo):
     dict_['_references'] = id_memo
 
     # Rewriting dc__refs
-    for _, serialized, id_, object_path in memo.values():
+    for value, (_, serialized, id_, object_path) in memo.items():
         if not object_path.startswith('#/_references') and id_ in id_memo:
             if REF_MARKER not in serialized:
+                owner_path, _, segment = object_path.rpartition('/')
+                owner = get_in_object_from_path(dict_, owner_path) if '/' in owner_path else None
+                if isinstance(value, SerializableObject) and isinstance(owner, dict) and REF_MARKER in owner:
+                    # Owner is itself a reference: the object is in the referenced dict
+                    object_path = f'{owner[REF_MARKER]}/{segment}'
                 set_in_object_from_path(dict_, object_path, {REF_MARKER: f'#/_references/{id_}'})
 
 
-- 
2.43.0


From 8324ad04ca808685ed36c68349e5462996279f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:45 +0000
Subject: [PATCH 013/120] fix: two different classes are not equal on data
 equality

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 18d69c0..907cd68 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1172,7 +1172,7 @@ def data_eq(value1, value2):
         return value1 == value2
 
     if isinstance(value1, type):
-        return full_classname(value1) == full_classname(value2)
+        return full_classname(value1, compute_for='class') == full_classname(value2, compute_for='class')
 
     # Else: its an object
     if full_classname(value1) != full_classname(value2):
-- 
2.43.0


From 5c6ca8f4a831bcfbed0383c985964892cb071cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:08 +0000
Subject: [PATCH 014/120] fix: an object holding a class can be copied

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 907cd68..82a097d 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -340,7 +340,7 @@ class DessiaObject(SerializableObject):
         for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 value = self.__dict__[arg]
-                if hasattr(value, '__copy__'):
+                if hasattr(value, '__copy__') and not isinstance(value, type):
                     dict_[arg] = value.__copy__()
                 else:
                     dict_[arg] = value
-- 
2.43.0


From bbb4c71e0ccdc1a8d590f78c41a22c3a3a395ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 015/120] fix: combining filters with xor is an exclusive or

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 82a097d..471f18f 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1046,7 +1046,7 @@ class FiltersList(DessiaObject):
         if logical_operator == 'or':
             return [any(booleans_tuple) for booleans_tuple in zip(*booleans_lists)]
         if logical_operator == 'xor':
-            return [bool(sum(booleans_tuple)) for booleans_tuple in zip(*booleans_lists)]
+            return [bool(sum(map(bool, booleans_tuple)) % 2) for booleans_tuple in zip(*booleans_lists)]
         raise NotImplementedError(f"'{logical_operator}' str for 'logical_operator' attribute is not a use case")
 
     def get_booleans_index(self, dobjects_list: List[DessiaObject]):
-- 
2.43.0


From 9650a1dd6bd224a74abc481cc22a19fee85ca42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:23 +0000
Subject: [PATCH 016/120] fix: comparing a filter with another value does not
 raise

---
 dessia_common/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 471f18f..153788c 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -873,6 +873,8 @@ class DessiaFilter(DessiaObject):
         return int(hash_)
 
     def __eq__(self, other: 'DessiaFilter'):
+        if not isinstance(other, DessiaFilter):
+            return False
         same_attr = self.attribute == other.attribute
         same_op = self.comparison_operator == other.comparison_operator
         same_bound = self.bound == other.bound
-- 
2.43.0


From 19758cd8d1f501736dd39eaad5f4ac0fe913deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:42 +0000
Subject: [PATCH 017/120] fix: literal choices with spaces or commas, and
 nested unbounded tuples, survive annotation serialization

---
 dessia_common/schemas/core.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 380665c..d53d5ae 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -650,8 +650,7 @@ class TypingProperty(Property):
     def _raw_args_from_serialized(cls, serialized: str) -> str:
         """ Get arguments as str from serialized value. """
         if "[" in serialized and "]" in serialized:
-            args = re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
-            return args.replace(" ", "")
+            return re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
         return ""
 
     @classmethod
@@ -1110,10 +1109,9 @@ class HeterogeneousSequence(TypingProperty):
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[Tuple]:
         """ Deserialize Tuple annotation with undefined length support. """
-        rawargs = cls._raw_args_from_serialized(serialized)
-        if ",..." in rawargs:
-            arg = rawargs.split(",...")[0]
-            subtype = deserialize_annotation(arg)
+        args = extract_args(cls._raw_args_from_serialized(serialized))
+        if "..." in args:
+            subtype = deserialize_annotation(args[0])
             return Tuple[subtype, ...]
         return Tuple[TypingProperty._args_from_serialized(serialized)]
 
@@ -1644,8 +1642,8 @@ class EnumProperty(TypingProperty):
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[T]:
         """ Specifically reset args as a tuple while removing one layer of single quotes. """
-        args = cls._raw_args_from_serialized(serialized)
-        return Literal[tuple(args.replace("'", "").split(","))]
+        args = extract_args(cls._raw_args_from_serialized(serialized))
+        return Literal[tuple(arg.replace("'", "") for arg in args)]
 
     @property
     def get_import_name(self):
@@ -1861,9 +1859,18 @@ def extract_args(string: str) -> List[str]:
     """
     opened_brackets = 0
     closed_brackets = 0
+    quoted = False
     current_arg = ""
     arguments = []
-    for character in string.replace(" ", ""):
+    for character in string:
+        if character == "'":
+            quoted = not quoted
+        if quoted:
+            # Text of a literal, taken as it is
+            current_arg += character
+            continue
+        if character == " ":
+            continue
         if character == "[":
             opened_brackets += 1
         if character == "]":
-- 
2.43.0


From 23b94b698496a39689ea025922781fa1a4efe6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:35 +0000
Subject: [PATCH 018/120] fix: matching of tuple types takes their length into
 account

---
 dessia_common/utils/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 700bb09..240473c 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -342,7 +342,12 @@ def complex_first_type_match(type_: Type, match_against: Type) -> bool:
         return typematch(type_args[0], match_against_args[0])
 
     if type_origin is tuple:
+        if Ellipsis in match_against_args:
+            # Any length is accepted, every argument should match
+            return all(typematch(a, match_against_args[0]) for a in type_args if a is not Ellipsis)
         # Order matters, all arguments should match
+        if Ellipsis in type_args or len(type_args) != len(match_against_args):
+            return False
         return all(typematch(a, b) for a, b in zip(type_args, match_against_args))
 
     if type_origin is dict:
-- 
2.43.0


From 5292a87c785c03436f2c3436e8eb63930e4e5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:59 +0000
Subject: [PATCH 019/120] fix: optional types match as the type they hold

---
 dessia_common/utils/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 240473c..f178306 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -302,6 +302,8 @@ def typematch(type_: Type, match_against: Type) -> bool:
     """
     # TODO Implement a more intelligent check for Unions : Union[T, U] should match against Union[T, U, V]
     # TODO Implement a check for Dict
+    type_, _, _ = heal_type(type_)
+    match_against, origin, args = heal_type(match_against)
     if type_ == match_against or match_against is Any or particular_typematches(type_, match_against):
         # Trivial cases. If types are strictly equal, then it should pass straight away
         return True
@@ -315,7 +317,6 @@ def typematch(type_: Type, match_against: Type) -> bool:
             return True
 
     # type_ is not complex and match_against is
-    match_against, origin, args = heal_type(match_against)
     if origin is Union:
         matches = [typematch(type_, subtype) for subtype in args]
         return any(matches)
@@ -378,7 +379,7 @@ def heal_type(type_: Type):
     if type_origin is Union:
         # Check for default values false positive
         if union_is_default_value(type_):
-            type_ = type_args[0]
+            type_ = next(arg for arg in type_args if arg is not type(None))
             type_origin = get_origin(type_)
             type_args = get_args(type_)
     return type_, type_origin, type_args
-- 
2.43.0


From 25fc3b5c3efa8903c0c869685b6bf9d43dd5cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:38 +0000
Subject: [PATCH 020/120] fix: an optional union is serialized as the union it
 holds

---
 dessia_common/schemas/core.py | 5 +++--
 dessia_common/utils/types.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index d53d5ae..591cc40 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -736,6 +736,8 @@ class OptionalProperty(ProxyProperty):
     def __init__(self, annotation: Type[T], attribute: SchemaAttribute):
         super().__init__(annotation=annotation, attribute=attribute)
 
+        self.annotation = Union[tuple(arg for arg in get_args(annotation) if arg is not type(None))]
+
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[T]:
         """ Deserialize Optional annotation. """
@@ -1846,8 +1848,7 @@ def union_is_default_value(typing_: Type) -> bool:
     An argument of a function that has a default_value set to None is Optional[T], which is an alias for
     Union[T, NoneType]. This function checks if this is the case.
     """
-    args = get_args(typing_)
-    return len(args) == 2 and type(None) in args
+    return type(None) in get_args(typing_)
 
 
 def extract_args(string: str) -> List[str]:
diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index f178306..125526c 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -379,7 +379,7 @@ def heal_type(type_: Type):
     if type_origin is Union:
         # Check for default values false positive
         if union_is_default_value(type_):
-            type_ = next(arg for arg in type_args if arg is not type(None))
+            type_ = Union[tuple(arg for arg in type_args if arg is not type(None))]
             type_origin = get_origin(type_)
             type_args = get_args(type_)
     return type_, type_origin, type_args
-- 
2.43.0


From aaab04c19486d82b945ce5df14693c2604e50680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:42 +0000
Subject: [PATCH 021/120] fix: the first argument of a static method keeps its
 default value in schemas

---
 dessia_common/schemas/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 591cc40..69def3a 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1680,7 +1680,7 @@ def split_default_args(argspecs: inspect.FullArgSpec, merge: bool = False) -> Tu
 
     default_arguments = {}
     arguments = []
-    for iargument, argument in enumerate(argspecs.args[1:]):
+    for iargument, argument in enumerate(argspecs.args, start=-1):
         if argument not in RESERVED_ARGNAMES:
             if iargument >= nargs - ndefault_args:
                 default_value = argspecs.defaults[ndefault_args - nargs + iargument]
-- 
2.43.0


From 905fa50c1aeba5ecff4e80325b1cfafd30e73c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:06 +0000
Subject: [PATCH 022/120] fix: arguments typed as tuples of any length can be
 deserialized

---
 dessia_common/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 48655ed..2ecf718 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -423,6 +423,8 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
 
     elif origin is tuple:
         # Heterogeneous sequences (tuples)
+        if Ellipsis in args:
+            args = args[:1] * len(argument)
         deserialized_arg = tuple(deserialize_argument(t, arg) for (t, arg) in zip(args, argument))
     elif origin is dict:
         # Dynamic dict
-- 
2.43.0


From 9bd5dffa819b959827a40aed6dca85d8c01b7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:22 +0000
Subject: [PATCH 023/120] fix: the default value of a measure is one of its
 class

---
 dessia_common/schemas/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 69def3a..6761052 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -858,15 +858,17 @@ class MeasureProperty(BuiltinProperty):
     def default_value(self):
         """ Handle measures default values defined as floats, Measure object and force a value when undefined. """
         if self.has_default_value:
-            if isinstance(self.attribute.default_value, float):
-                default_measure = Measure(self.attribute.default_value)
+            if self.attribute.default_value is None:
+                return None
+            if isinstance(self.attribute.default_value, (float, int)):
+                default_measure = self.annotation(self.attribute.default_value)
             elif isinstance(self.attribute.default_value, dict):
-                default_measure = Measure(self.attribute.default_value["value"])
+                default_measure = self.annotation(self.attribute.default_value["value"])
             else:
                 raise ValueError(f"Default value for attribute '{self.attribute.name}' "
                                  f"must be of type 'float' or 'Measure'. Got '{type(self.attribute.default_value)}'")
             return default_measure.to_dict()
-        return {"object_class": f"{Measure.__module__}.{Measure.__class__.__name__}", "value": None}
+        return {"object_class": self.serialized, "value": None}
 
     def get_import_names(self, import_names):
         """ Process MeasureProperty and get/update the import names list."""
-- 
2.43.0


From 81d9bff1f58e7bb1178cc4dddc1bcc3ba8e83ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:14 +0000
Subject: [PATCH 024/120] fix: default dicts hold None for arguments without a
 default or with None as one

---
 dessia_common/schemas/core.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 6761052..087852d 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -558,7 +558,9 @@ class Property:
 
     def default_value(self):
         """ Generic default. Yield user default if defined. """
-        return self.attribute.default_value
+        if self.has_default_value:
+            return self.attribute.default_value
+        return None
 
     def inject_reference(self, object_id: str):
         """ Exposed to backend in order to inject MongoDB reference in place of object default value. """
@@ -709,6 +711,12 @@ class ProxyProperty(TypingProperty):
         """ Write Proxy as a Dict. """
         return self.schema.to_dict()
 
+    def default_value(self):
+        """ Default value of under-proxy-annotation, or None if there is not any. """
+        if self.has_default_value and self.attribute.default_value is not None:
+            return self.schema.default_value()
+        return None
+
     @cached_property
     def serialized(self) -> str:
         """ Stringify under-proxy-annotation. """
@@ -921,7 +929,7 @@ class FileProperty(Property):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if the user definition doesn't have any default value, as it is not supported for files. """
-        if self.default_value() is not UNDEFINED:
+        if self.has_default_value:
             msg = f"{self.check_prefix}File input defines a default value, whereas it is not supported."
             return CheckWarning(msg)
         msg = f"{self.check_prefix}File input doesn't define a default value, as it should."
@@ -1453,6 +1461,8 @@ class AttributeTypeProperty(TypingProperty):
     def default_value(self) -> Dict[str, Any]:
         """ Sets AttributeType object_class and argument class_ if it is different from Type. """
         if self.has_default_value:
+            if self.attribute.default_value is None:
+                return None
             return self.attribute.default_value.to_dict()
 
         if self.class_ is not Type and issubclass(self.class_, CoreDessiaObject):
@@ -1563,6 +1573,8 @@ class ClassProperty(TypingProperty):
     def default_value(self) -> str:
         """ Sets AttributeType object_class and argument class_ if it is different from Type. """
         if self.has_default_value:
+            if self.attribute.default_value is None:
+                return None
             return full_classname(self.attribute.default_value, compute_for="class")
 
         if self.class_ is not Type and issubclass(self.class_, CoreDessiaObject):
-- 
2.43.0


From 0c2b21751db03e7e6bbb4733dba5a13ed1a51e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:44 +0000
Subject: [PATCH 025/120] fix: mutable default values of lists and dictionaries
 are reported by schema checks

---
 dessia_common/schemas/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 087852d..c715665 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1224,7 +1224,7 @@ class HomogeneousSequence(TypingProperty):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if List doesn't define a default value that is other than None. """
-        if self.default_value() is not UNDEFINED and self.default_value() is not None:
+        if self.has_default_value and self.attribute.default_value is not None:
             msg = f"{self.check_prefix}Mutable List input defines a default value other than None," \
                   f"which will lead to unexpected behavior and therefore, is not supported."
             return UnsupportedDefault(msg)
@@ -1306,7 +1306,7 @@ class DynamicDict(TypingProperty):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if Dict doesn't define a default value that is other than None. """
-        if self.default_value() is not UNDEFINED and self.default_value() is not None:
+        if self.has_default_value and self.attribute.default_value is not None:
             msg = f"{self.check_prefix}Mutable Dict input defines a default value other than None," \
                   f"which will lead to unexpected behavior and therefore, is not supported."
             return UnsupportedDefault(msg)
-- 
2.43.0


From 8b6d5a21c20b896f8db56105f0999249cbcda41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:06 +0000
Subject: [PATCH 026/120] fix: the check list of a schema holds the checks of
 its attributes

---
 dessia_common/schemas/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index c715665..42d3513 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -173,6 +173,7 @@ class SchemaAttributeCollection:
         for attribute in self.attributes:
             schema = self.property_schemas[attribute.name]
             issues += schema.check_list()
+        return issues
 
     def to_dict(self):
         return {"properties": [self.chunk(a) for a in self._attributes]}
@@ -298,7 +299,7 @@ class Schema:
         """
         issues = CheckList([])
         for step in self.steps:
-            step.check_list(issues)
+            issues = step.check_list(issues)
         return issues
 
     @property
-- 
2.43.0


From 6a86c4781b9a0299f9cc5b50973f52dad2642680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:01 +0000
Subject: [PATCH 027/120] fix: serialized measures given as arguments are
 deserialized

---
 dessia_common/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 2ecf718..60e790c 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -487,6 +487,8 @@ def deserialize_argument(type_, argument, global_dict=None, pointers_memo=None,
         return dcty.is_classname_transform(argument)
 
     if issubclass(type_, Measure):
+        if isinstance(argument, dict):
+            return type_.dict_to_object(argument)
         return argument
     raise TypeError(f"Deserialization of type {type_} is Not Implemented")
 
-- 
2.43.0


From 1ac1380c49495d26b928315c8887cfae3dcfeec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:56 +0000
Subject: [PATCH 028/120] fix: Sum block sums the values of its inputs, not its
 variables

---
 dessia_common/workflow/blocks.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 632d8e5..9788ff7 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1322,12 +1322,8 @@ class Sum(Block):
         return block
 
     def evaluate(self, values, **kwargs):
-        """
-        Sum input values.
-
-        TODO : This cannot work, we are summing a dictionary
-        """
-        return [sum(values)]
+        """ Sum input values. """
+        return [sum(values[i] for i in self.inputs)]
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-- 
2.43.0


From 7c96589562aa1e626ac3f57f0164c0cb20e1daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:00 +0000
Subject: [PATCH 029/120] fix: evaluate_next_block does not evaluate the same
 secondary block forever

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e09bb0a..5edd9d3 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1943,7 +1943,8 @@ class WorkflowState(DessiaObject):
     def evaluate_next_block(self, progress_callback=lambda x: None) -> Optional[Block]:
         """ Evaluate a block. """
         self.activate_inputs()
-        blocks = self._activable_blocks()
+        # Secondary blocks can be activated again and again, they should not be evaluated forever
+        blocks = [b for b in self._activable_blocks() if not self.activated_items[b]]
         if blocks:
             block_index = self.workflow.blocks.index(blocks[0])
             self.block_evaluation(block_index, progress_callback=progress_callback)
-- 
2.43.0


From 6906c13c9a30ed593b938b1912b069dbd77bb6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:09 +0000
Subject: [PATCH 030/120] fix: reloaded nonblock variables keep their type when
 their block input is not typed

---
 dessia_common/workflow/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 5edd9d3..9307df1 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -19,8 +19,8 @@ from dessia_common.graph import get_column_by_node
 from dessia_common.core import DessiaObject, display_settings_from_selector, stringify_dict_keys
 
 from dessia_common.schemas.core import (get_schema, FAILED_ATTRIBUTE_PARSING, EMPTY_PARSED_ATTRIBUTE, SchemaStep,
-                                        serialize_annotation, pretty_annotation, UNDEFINED, Schema, SchemaAttribute,
-                                        SchemaAttributeGroup)
+                                        serialize_annotation, deserialize_annotation, pretty_annotation, UNDEFINED, Schema,
+                                        SchemaAttribute, SchemaAttributeGroup)
 from dessia_common.utils.types import recursive_type, typematch, is_file_or_file_sequence
 from dessia_common.utils.copy import deepcopy_value
 from dessia_common.utils.diff import choose_hash
@@ -2349,7 +2349,11 @@ def deserialize_pipes(pipes_dict, blocks, nonblock_variables, connected_nbvs):
             # All in all, as blocks reset their inputs every time (trust user code instead of frontend json),
             # this is a way to reset NBVs type to user-code value and avoiding deserialization as string,
             # which are two completely different issues.
-            variable1.type_ = variable2.type_
+            if variable2.type_ is not None:
+                variable1.type_ = variable2.type_
+            elif isinstance(variable1.type_, str):
+                # Downstream is not typed: do not lose the type the NBV was given
+                variable1.type_ = deserialize_annotation(variable1.type_)
         pipes.append(Pipe(variable1, variable2))
     return pipes
 
-- 
2.43.0


From f312a4c4926679d062f0ff2c22c997cd1b2c1908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:09 +0000
Subject: [PATCH 031/120] fix: reloaded nonblock variables stay locked

---
 dessia_common/workflow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 9307df1..ee40f44 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2307,6 +2307,9 @@ def initialize_workflow(dict_, global_dict, pointers_memo) -> Workflow:
     if 'nonblock_variables' in dict_:
         nonblock_variables = [deserialize(serialized_element=d, global_dict=global_dict, pointers_memo=pointers_memo)
                               for d in dict_['nonblock_variables']]
+        for variable, variable_dict in zip(nonblock_variables, dict_['nonblock_variables']):
+            if variable_dict.get("locked", False):
+                variable.lock()
     else:
         nonblock_variables = []
 
-- 
2.43.0


From fcd73ee7f201e12192cfd59d7b1bdd9992084cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:18 +0000
Subject: [PATCH 032/120] fix: a reloaded workflow state holds the values it
 needs to be continued

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index ee40f44..9413a2a 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1789,7 +1789,8 @@ class WorkflowState(DessiaObject):
         # Values
         values = {}
         for pipe, value in self.values.items():
-            if not is_file_or_file_sequence(value) and pipe in self.workflow.memorized_pipes:
+            # Runs only hold the values of their memorized pipes, but states need all of them to be continued
+            if not is_file_or_file_sequence(value):
                 pipe_index = self.workflow.pipes.index(pipe)
                 if use_pointers:
                     try:
-- 
2.43.0


From 581da4b4ee2484abf90adafd40b00d02f1c342ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:51 +0000
Subject: [PATCH 033/120] fix: copying a workflow variable keeps its label,
 position and declared type

---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 9413a2a..5023dd8 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -147,7 +147,9 @@ class Variable(DessiaObject):
         if memo is None:
             memo = {}
         default_value = deepcopy_value(self.default_value, memo=memo) if self.has_default_value else UNDEFINED
-        variable = Variable(type_=self.type_, default_value=default_value, name=self.name)
+        variable = Variable(type_=self.type_, default_value=default_value, name=self.name, label=self.label,
+                            position=self.position)
+        variable.type_ = self.type_  # Could have been computed from the default value
         if self.locked:
             variable.lock()
         return variable
-- 
2.43.0


From 333cfa05bbc642b6fb6d24cf918f0fff7ae7f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:17 +0000
Subject: [PATCH 034/120] fix: a copied workflow keeps default values, labels,
 description and documentation

---
 dessia_common/workflow/core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 5023dd8..d603328 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -536,6 +536,15 @@ class Workflow(Block):
             memo = {}
 
         blocks = [deepcopy_value(b, memo) for b in self.blocks]
+        for block, copied_block in zip(self.blocks, blocks):
+            # Copied blocks compute new variables, which do not have the labels and default values set by user
+            copied_variables = copied_block.inputs + copied_block.outputs
+            for variable, copied_variable in zip(block.inputs + block.outputs, copied_variables):
+                copied_variable.label = variable.label
+                if variable.has_default_value:
+                    copied_variable.default_value = deepcopy_value(variable.default_value, memo=memo)
+                else:
+                    copied_variable.default_value = UNDEFINED
         output_adress = self.variable_indices(self.output)
         if output_adress is None:
             output = None
@@ -554,7 +563,8 @@ class Workflow(Block):
 
         # Steps need a workflow that has pipe in order to handle NBVs and detached variables
         steps = [self.copy_step(copied_workflow=piped_workflow, step=s) for s in self.steps]
-        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, name=self.name)
+        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, description=self.description,
+                            documentation=self.documentation, name=self.name)
 
         # Locking variables
         for i, input_ in enumerate(self.inputs):
-- 
2.43.0


From 55612a07204519dd81258c93d9a508a46b74cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:09 +0000
Subject: [PATCH 035/120] fix: method_dict of a workflow with default values

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index d603328..1ce2cf1 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -846,7 +846,7 @@ class Workflow(Block):
         return {i: input_.default_value for i, input_ in enumerate(self.inputs) if input_.has_default_value}
 
     def _run_dict(self) -> JsonSerializable:
-        return {str(self.variables.index(i)): serialize(v) for i, v in self.default_values.items()}
+        return {str(i): serialize(v) for i, v in self.default_values.items()}
 
     def method_dict(self, method_name: str = None) -> Dict:
         """ Wrapper method to get dictionaries of run method. """
-- 
2.43.0


From 433d980c6fbde00a0dae065e5ed0d853c482287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:22 +0000
Subject: [PATCH 036/120] fix: copies of method, view and attribute types keep
 their class

---
 dessia_common/typings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/typings.py b/dessia_common/typings.py
index b68bdc8..09f91c5 100644
--- a/dessia_common/typings.py
+++ b/dessia_common/typings.py
@@ -31,7 +31,7 @@ class MethodType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return MethodType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     def get_method(self):
         """ Helper to get real method from class_ and method name. """
@@ -71,7 +71,7 @@ class AttributeType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return AttributeType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     @property
     def type_(self):
-- 
2.43.0


From 8dcffd56b23f363208aa0f915e970926bd1f934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:22 +0000
Subject: [PATCH 037/120] fix: blocks instantiating different classes are not
 equivalent

---
 dessia_common/workflow/blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 9788ff7..edfb2ad 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -98,8 +98,8 @@ class InstantiateModel(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.model_class.__class__.__name__
-        other_classname = other.model_class.__class__.__name__
+        classname = self.model_class.__name__
+        other_classname = other.model_class.__name__
         return super().equivalent(other) and classname == other_classname
 
     @classmethod
-- 
2.43.0


From 9c733bd41c1210b61be44962912c05e9b2983dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:22 +0000
Subject: [PATCH 038/120] fix: filter blocks with different logical operators
 are not equivalent

---
 dessia_common/workflow/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index edfb2ad..db77270 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -657,7 +657,8 @@ class Filter(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        return super().equivalent(other) and self.filters == other.filters
+        same_filters = self.filters == other.filters
+        return super().equivalent(other) and same_filters and self.logical_operator == other.logical_operator
 
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Filter':
-- 
2.43.0


From 98d9e74462cc68224e143959fbbb2b36d81ba5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:22 +0000
Subject: [PATCH 039/120] fix: workflow steps without display can be hashed

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 1ce2cf1..aeb427c 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -303,7 +303,7 @@ class Step:
 
     def __hash__(self):
         return (hash(self.label) + 43 * len(self.inputs) + 19 * len(self.group_inputs) + hash(self.display_setting)
-                + len(self.documentation) + self.display_variable_index)
+                + len(self.documentation) + (self.display_variable_index or 0))
 
     def __eq__(self, other: 'Step'):
         same_label = self.label == other.label
-- 
2.43.0


From f470a8debd1cb6162946381f2ec0865e66ce9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:22 +0000
Subject: [PATCH 040/120] fix: workflows with blocks of different classes can
 be compared

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index aeb427c..5205d9c 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -487,7 +487,7 @@ class Workflow(Block):
 
         # TODO: temp , reuse graph to handle block order!!!!
         for block1, block2 in zip(self.blocks, other_object.blocks):
-            if not block1.equivalent(block2):
+            if block1.__class__ is not block2.__class__ or not block1.equivalent(block2):
                 return False
 
         if not self._equivalent_pipes(other_object):
-- 
2.43.0


From 811db12e1d1d616bb50162911020be8dfb4b8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:46 +0000
Subject: [PATCH 041/120] fix: the method of a reloaded export block is not a
 class method

---
 dessia_common/workflow/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index db77270..d0146c4 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1438,7 +1438,7 @@ class Export(Block):
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Export':
         """ Override base dict_to_object in order to force custom inputs from workflow builder. """
-        method_type = ClassMethodType.dict_to_object(dict_["method_type"])
+        method_type = MethodType.dict_to_object(dict_["method_type"])
         block = cls(method_type=method_type, text=dict_["text"], extension=dict_["extension"],
                     filename=dict_["filename"], name=dict_["name"], position=dict_["position"])
         block.deserialize_variables(dict_)
-- 
2.43.0


From 557abca84befd2ef4d1281a8b408ed80a8de5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:21 +0000
Subject: [PATCH 042/120] fix: workflows with different default values are not
 equal, nor merged when copied

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 5205d9c..abb66d6 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -104,7 +104,8 @@ class Variable(DessiaObject):
         same_name = self.name == other.name
         same_type = self.type_ == other.type_
         same_lock = self.locked == other.locked
-        return same_name and same_type and same_lock
+        same_default = self.default_value == other.default_value
+        return same_name and same_type and same_lock and same_default
 
     def to_dict(self, use_pointers: bool = True, memo=None, path: str = '#',
                 id_method=True, id_memo=None, **kwargs) -> JsonSerializable:
-- 
2.43.0


From 72f4f59906ebeaeabbe8c12a056c8986f470186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:24 +0000
Subject: [PATCH 043/120] fix: the script of a filter block closes its list of
 filters

---
 dessia_common/workflow/blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index d0146c4..28f162c 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -683,8 +683,8 @@ class Filter(Block):
         """ Write block config into a chunk of script. """
         filter_variables = [f"DessiaFilter("
                             f"attribute='{f.attribute}', comparison_operator='{f.comparison_operator}', "
-                            f"bound={f.bound}, name='{f.name}')" for f in self.filters]
-        filters = f"[{','.join(filter_variables)}"
+                            f"bound={f.bound!r}, name='{f.name}')" for f in self.filters]
+        filters = f"[{', '.join(filter_variables)}]"
         script = f"Filter(filters={filters}, logical_operator='{self.logical_operator}', {self.base_script()})"
 
         imports = [DessiaFilter("", "", 0).full_classname, self.full_classname]
-- 
2.43.0


From 7c04c7867a9e385d5d3ccb6e19621cc60c393654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:24 +0000
Subject: [PATCH 044/120] fix: the script of a set attribute block imports what
 it uses

---
 dessia_common/workflow/blocks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 28f162c..f03d59b 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1290,7 +1290,10 @@ class SetModelAttribute(Block):
         script = f"SetModelAttribute(attribute_type=AttributeType(" \
                  f"{self.attribute_type.class_.__name__}, name=\"{self.attribute_type.name}\")" \
                  f", {self.base_script()})"
-        return ToScriptElement(declaration=script, imports=[self.full_classname])
+        imports = [full_classname(object_=self.attribute_type, compute_for="instance"),
+                   full_classname(object_=self.attribute_type.class_, compute_for="class"),
+                   self.full_classname]
+        return ToScriptElement(declaration=script, imports=imports)
 
 
 class Sum(Block):
-- 
2.43.0


From ba283597668826698f72ab99ede860858bd1f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:24 +0000
Subject: [PATCH 045/120] fix: the script of a concatenate strings block keeps
 its position and separator

---
 dessia_common/workflow/blocks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index f03d59b..20ed46d 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1403,8 +1403,7 @@ class ConcatenateStrings(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"ConcatenateStrings(number_elements={self.number_elements}, " \
-                 f"separator='{self.separator}', " \
-                 f"name='{self.name}')"
+                 f"separator={self.separator!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
-- 
2.43.0


From 35ae68ad6c7fcfcb333b03112b7982d63ff71e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:37 +0000
Subject: [PATCH 046/120] fix: names, labels and documentations with quotes or
 backslashes are escaped in scripts

---
 dessia_common/workflow/blocks.py | 30 ++++++++++++++----------------
 dessia_common/workflow/core.py   | 10 +++++-----
 dessia_common/workflow/utils.py  | 14 ++++++++++++++
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 20ed46d..782a440 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -19,7 +19,7 @@ from dessia_common.utils.helpers import (concatenate, full_classname, get_python
 from dessia_common.breakdown import attrmethod_getter
 from dessia_common.exports import ExportFormat
 from dessia_common.workflow.core import Block, Variable, Workflow
-from dessia_common.workflow.utils import ToScriptElement
+from dessia_common.workflow.utils import ToScriptElement, quoted
 import plot_data as pd
 
 T = TypeVar("T")
@@ -682,10 +682,10 @@ class Filter(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         filter_variables = [f"DessiaFilter("
-                            f"attribute='{f.attribute}', comparison_operator='{f.comparison_operator}', "
-                            f"bound={f.bound!r}, name='{f.name}')" for f in self.filters]
+                            f"attribute={f.attribute!r}, comparison_operator={f.comparison_operator!r}, "
+                            f"bound={f.bound!r}, name={f.name!r})" for f in self.filters]
         filters = f"[{', '.join(filter_variables)}]"
-        script = f"Filter(filters={filters}, logical_operator='{self.logical_operator}', {self.base_script()})"
+        script = f"Filter(filters={filters}, logical_operator={self.logical_operator!r}, {self.base_script()})"
 
         imports = [DessiaFilter("", "", 0).full_classname, self.full_classname]
         return ToScriptElement(declaration=script, imports=imports)
@@ -751,21 +751,21 @@ class Display(Block):
 
     def to_script_selector(self) -> ToScriptElement:
         """ Write Block's Selector config into a chunk of script. """
-        script = f"{self.selector_class_name}(name='{self.name}')"
+        script = f"{self.selector_class_name}(name={self.name!r})"
         selector_class_ = full_classname(self.selector.class_, compute_for="class")
         selector_class_name = f"{self.selector.__module__}.{self.selector_class_name}"
         return ToScriptElement(declaration=script, imports=[selector_class_, selector_class_name])
 
     def base_script(self) -> str:
         """ Generate a chunk of script that denotes the arguments of a base block. """
-        return f"name=\"{self.name}\", load_by_default={self.load_by_default}, position={self.position}"
+        return f"name={quoted(self.name)}, load_by_default={self.load_by_default}, position={self.position}"
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         imports = [self.full_classname]
         script_selector = self.to_script_selector()
         script = f"{self.display_class_name}(selector={self.selector_class_name}(" \
-                 f"class_={self.selector.class_.__name__}, name='{self.selector.name}')" \
+                 f"class_={self.selector.class_.__name__}, name={self.selector.name!r})" \
                  f", {self.base_script()})"
 
         imports.extend(script_selector.imports)
@@ -892,7 +892,7 @@ class MultiPlot(Display):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"MultiPlot(selector_name='{self.selector.name}', attributes={self.attributes}, {self.base_script()})"
+        script = f"MultiPlot(selector_name={self.selector.name!r}, attributes={self.attributes}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
     def to_dict(self, use_pointers: bool = True, memo=None, path: str = '#',
@@ -981,7 +981,7 @@ class MultiObject(Display):
         imports = [c.full_classname for c in self.configurations] + [self.full_classname]
         configurations = [f"{c._to_script()}" for c in self.configurations]
         script = ("MultiObject("
-                  f"selector_name='{self.selector.name}',"
+                  f"selector_name={self.selector.name!r},"
                   f" configurations=[{', '.join(configurations)}],"
                   f" {self.base_script()})")
         return ToScriptElement(declaration=script, imports=imports)
@@ -1192,7 +1192,7 @@ class ModelAttribute(Block):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"ModelAttribute(attribute_name='{self.attribute_name}', {self.base_script()})"
+        script = f"ModelAttribute(attribute_name={self.attribute_name!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
    
@@ -1466,7 +1466,7 @@ class Export(Block):
         """ Write block config into a chunk of script. """
         script = f"Export(method_type=MethodType(" \
                  f"{self.method_type.class_.__name__}, '{self.method_type.name}')" \
-                 f", filename='{self.filename}', extension='{self.extension}'" \
+                 f", filename={self.filename!r}, extension={self.extension!r}" \
                  f", text={self.text}, {self.base_script()})"
 
         imports = [self.full_classname, full_classname(object_=self.method_type, compute_for="instance"),
@@ -1529,7 +1529,7 @@ class Archive(Block):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"Archive(number_exports={self.number_exports}, filename='{self.filename}', {self.base_script()})"
+        script = f"Archive(number_exports={self.number_exports}, filename={self.filename!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
@@ -1559,8 +1559,7 @@ class ScatterView(PlotDataView):
                           elements=samples, name=self.name)
 
     def _to_script(self) -> str:
-        attributes = "', '".join(self.attributes)
-        return f"{self.__class__.__name__}(attributes=('{attributes}'), name='{self.name}')"
+        return f"{self.__class__.__name__}(attributes={tuple(self.attributes)}, name={self.name!r})"
 
 
 class ParallelView(PlotDataView):
@@ -1574,5 +1573,4 @@ class ParallelView(PlotDataView):
         return pd.ParallelPlot(elements=samples, disposition="horizontal", axes=self.attributes)
 
     def _to_script(self) -> str:
-        attributes = "', '".join(self.attributes)
-        return f"{self.__class__.__name__}(attributes=['{attributes}'], name='{self.name}')"
+        return f"{self.__class__.__name__}(attributes={list(self.attributes)}, name={self.name!r})"
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index abb66d6..3c6bf7f 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -35,7 +35,7 @@ import dessia_common.templates
 from dessia_common.serialization import (deserialize, serialize_with_pointers, serialize, update_pointers_data,
                                          add_references, deserialize_argument)
 from dessia_common.workflow.utils import (ToScriptElement, blocks_to_script, nonblock_variables_to_script,
-                                          update_imports, generate_default_value)
+                                          update_imports, generate_default_value, quoted, triple_quoted)
 
 
 T = TypeVar("T")
@@ -165,7 +165,7 @@ class Variable(DessiaObject):
     def _get_to_script_elements(self):
         schema = get_schema(annotation=self.type_, attribute=SchemaAttribute(self.name))
         imports = schema.get_import_names(import_names=[])
-        declaration = f"name='{self.name}', label='{self.label}', position={self.position}," \
+        declaration = f"name={self.name!r}, label={self.label!r}, position={self.position}," \
                       f" type_={schema.pretty_annotation}"
         return ToScriptElement(declaration=declaration, imports=imports, imports_as_is=[])
 
@@ -228,7 +228,7 @@ class Block(DessiaObject):
 
     def base_script(self) -> str:
         """ Generate a chunk of script that denotes the arguments of a base block. """
-        return f"name=\"{self.name}\", position={self.position}"
+        return f"name={quoted(self.name)}, position={self.position}"
 
     def evaluate(self, values, **kwargs):
         """ Not implemented for abstract block class 'evaluate' method. """
@@ -1341,10 +1341,10 @@ class Workflow(Block):
                       f"{pipes_str}\n" \
                       f"{prefix}workflow = " \
                       f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, documentation=documentation," \
-                      f" name=\"{self.name}\")\n"
+                      f" name={quoted(self.name)})\n"
 
         imports.append(self.full_classname)
-        full_script = f'documentation = """{self.documentation}"""\n\n' + full_script
+        full_script = f'documentation = {triple_quoted(self.documentation)}\n\n' + full_script
         return ToScriptElement(declaration=full_script, imports=imports, imports_as_is=imports_as_is)
 
     def to_script(self) -> str:
diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 5e7fe09..0f4d7ec 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Utilities for workflows. """
 
+import json
 from typing import List, Dict
 
 from dessia_common.schemas.core import get_schema, SchemaAttribute
@@ -48,6 +49,19 @@ class ToScriptElement:
         return imports_dict
 
 
+def quoted(text: str) -> str:
+    """ Write a text as a double-quoted string of a script. """
+    return json.dumps(text, ensure_ascii=False)
+
+
+def triple_quoted(text: str) -> str:
+    """ Write a text as a triple-quoted string of a script. """
+    escaped = text.replace("\\", "\\\\").replace("\r", "\\r")
+    if '"""' in text or text.endswith('"'):
+        escaped = escaped.replace('"', '\\"')
+    return f'"""{escaped}"""'
+
+
 def blocks_to_script(blocks, prefix: str, imports):
     """ Set Blocks to script. """
     blocks_str = ""
-- 
2.43.0


From 5f8a320823af3ce4519ada9e5cc49bf67ba42aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:33 +0000
Subject: [PATCH 047/120] fix: in scripts, the documentation of an inner
 workflow does not replace the one of the workflow

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 3c6bf7f..6490316 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1340,11 +1340,11 @@ class Workflow(Block):
                       f"{nbvs_str}\n" \
                       f"{pipes_str}\n" \
                       f"{prefix}workflow = " \
-                      f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, documentation=documentation," \
+                      f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, documentation={prefix}documentation," \
                       f" name={quoted(self.name)})\n"
 
         imports.append(self.full_classname)
-        full_script = f'documentation = {triple_quoted(self.documentation)}\n\n' + full_script
+        full_script = f'{prefix}documentation = {triple_quoted(self.documentation)}\n\n' + full_script
         return ToScriptElement(declaration=full_script, imports=imports, imports_as_is=imports_as_is)
 
     def to_script(self) -> str:
-- 
2.43.0


From 7642d54855d3231877defca3fbb3095e3300b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:18 +0000
Subject: [PATCH 048/120] fix: scripts of workflows keep the labels, default
 values and locks of inputs

---
 dessia_common/workflow/blocks.py |  5 ++--
 dessia_common/workflow/core.py   |  5 +++-
 dessia_common/workflow/utils.py  | 40 +++++++++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 782a440..f453e6b 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -19,7 +19,7 @@ from dessia_common.utils.helpers import (concatenate, full_classname, get_python
 from dessia_common.breakdown import attrmethod_getter
 from dessia_common.exports import ExportFormat
 from dessia_common.workflow.core import Block, Variable, Workflow
-from dessia_common.workflow.utils import ToScriptElement, quoted
+from dessia_common.workflow.utils import ToScriptElement, block_inputs_to_script, quoted
 import plot_data as pd
 
 T = TypeVar("T")
@@ -518,7 +518,8 @@ class ForEach(Block):
         """ Write block config into a chunk of script. """
         wfblock_script_elements = self.workflow_block._to_script(prefix)
         wfblock_script = f"{wfblock_script_elements.before_declaration}\n" \
-                         f"wfblock = {wfblock_script_elements.declaration}"
+                         f"wfblock = {wfblock_script_elements.declaration}\n" \
+                         f"{block_inputs_to_script(block=self.workflow_block, block_name='wfblock')}"
         foreach_script = f"ForEach(workflow_block=wfblock, iter_input_index={self.iter_input_index}, " \
                          f"{self.base_script()})"
 
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 6490316..4987611 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -35,7 +35,8 @@ import dessia_common.templates
 from dessia_common.serialization import (deserialize, serialize_with_pointers, serialize, update_pointers_data,
                                          add_references, deserialize_argument)
 from dessia_common.workflow.utils import (ToScriptElement, blocks_to_script, nonblock_variables_to_script,
-                                          update_imports, generate_default_value, quoted, triple_quoted)
+                                          update_imports, generate_default_value, is_scriptable, quoted,
+                                          triple_quoted)
 
 
 T = TypeVar("T")
@@ -167,6 +168,8 @@ class Variable(DessiaObject):
         imports = schema.get_import_names(import_names=[])
         declaration = f"name={self.name!r}, label={self.label!r}, position={self.position}," \
                       f" type_={schema.pretty_annotation}"
+        if self.has_default_value and is_scriptable(self.default_value):
+            declaration += f", default_value={self.default_value!r}"
         return ToScriptElement(declaration=declaration, imports=imports, imports_as_is=[])
 
 
diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 0f4d7ec..701b7a6 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -3,6 +3,7 @@
 """ Utilities for workflows. """
 
 import json
+import math
 from typing import List, Dict
 
 from dessia_common.schemas.core import get_schema, SchemaAttribute
@@ -73,14 +74,45 @@ def blocks_to_script(blocks, prefix: str, imports):
         if block_script.before_declaration is not None:
             blocks_str += f"{block_script.before_declaration}\n"
         blocks_str += f"{block_name} = {block_script.declaration}\n"
-        for i, input_ in enumerate(block.inputs):
-            if input_.locked:
-                blocks_str += f"{block_name}.inputs[{i}].lock()\n"
+        blocks_str += block_inputs_to_script(block=block, block_name=block_name)
         block_names.append(block_name)
     blocks_str += f"{prefix}blocks = [{', '.join(block_names)}]\n"
     return blocks_str
 
 
+def is_scriptable(value) -> bool:
+    """ Return whether the representation of the value can be written in a script. """
+    if isinstance(value, (list, tuple)):
+        return all(is_scriptable(v) for v in value)
+    if isinstance(value, dict):
+        return all(is_scriptable(k) and is_scriptable(v) for k, v in value.items())
+    if isinstance(value, float):
+        return math.isfinite(value)
+    return value is None or isinstance(value, (bool, int, str))
+
+
+def block_inputs_to_script(block, block_name: str) -> str:
+    """ Set what was configured on the inputs of a block (label, default value and lock) to script. """
+    dict_ = block.to_dict()
+    dict_.pop("inputs")
+    script = ""
+    for i, (input_, generated) in enumerate(zip(block.inputs, block.dict_to_object(dict_).inputs)):
+        input_name = f"{block_name}.inputs[{i}]"
+        if input_.label != generated.label:
+            script += f"{input_name}.label = {input_.label!r}\n"
+        if input_.has_default_value:
+            same = generated.has_default_value and repr(generated.default_value) == repr(input_.default_value)
+            if is_scriptable(input_.default_value) and not same:
+                script += f"{input_name}.default_value = {input_.default_value!r}\n"
+        elif generated.has_default_value:
+            script += f"{input_name}.unlock(keep_default=False)\n"
+        if input_.locked:
+            script += f"{input_name}.lock()\n"
+        elif generated.locked:
+            script += f"{input_name}.unlock()\n"
+    return script
+
+
 def nonblock_variables_to_script(nonblock_variables, prefix, imports, imports_as_is):
     """ Set Non Block Variables to script. """
     nbvs_str = ""
@@ -89,6 +121,8 @@ def nonblock_variables_to_script(nonblock_variables, prefix, imports, imports_as
         imports.extend(nbv_script.imports)
         imports_as_is.extend(nbv_script.imports_as_is)
         nbvs_str += f"{prefix}variable_{nbv_index} = {nbv_script.declaration}\n"
+        if nbv.locked:
+            nbvs_str += f"{prefix}variable_{nbv_index}.lock()\n"
     return nbvs_str
 
 
-- 
2.43.0


From 53f380477fcb9ff6c8c84846da2dc1ef01ab592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:20 +0000
Subject: [PATCH 049/120] fix: the script of a run gives each value to its own
 input

---
 dessia_common/workflow/core.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 4987611..03bb767 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2220,45 +2220,34 @@ class WorkflowRun(WorkflowState):
         return self.workflow.run(input_values=input_values, verbose=False,
                                  progress_callback=progress_callback, name=name)
 
-    def _split_input_values(self):
-        """ Split the input values for blocks and non-block variables. """
-        nbv_values = [self.input_values[i] for i, v in enumerate(self.workflow.inputs) if
-                      v in self.workflow.nonblock_variables]
-        block_values = [self.input_values[i] for i, v in enumerate(self.workflow.inputs) if
-                        v not in self.workflow.nonblock_variables]
-        return nbv_values, block_values
-
-    def _to_script(self, workflow_script):
+    def _to_script(self):
         """ Computes elements for a to_script interpretation. """
         input_str = ""
         default_value = ""
         add_import = []
-
-        nbv_values, block_values = self._split_input_values()
+        values = {self.workflow.inputs[i]: v for i, v in self.input_values.items()}
 
         # Blocks
-        index_ = 0
         for j, block in enumerate(self.workflow.blocks):
             for i, input_ in enumerate(block.inputs):
-                input_key = f"block_{j}.inputs[{i}]"
-                if input_key not in workflow_script.declaration:
-                    input_str += f"    workflow.input_index({input_key}): value_{j}_{i},\n"
-                    default_value += generate_default_value(block_values[index_], j, i)
-                    index_ += 1
+                if input_ in values and not input_.locked:
+                    input_str += f"    workflow.input_index(block_{j}.inputs[{i}]): value_{j}_{i},\n"
+                    default_value += generate_default_value(values[input_], j, i)
                     add_import.extend(update_imports(input_.type_, input_.name))
 
         # NBVs
         for k, nbv in enumerate(self.workflow.nonblock_variables):
-            input_str += f"    workflow.input_index(variable_{k}): value_{k},\n"
-            default_value += generate_default_value(nbv_values[k], k)
-            add_import.extend(update_imports(nbv.type_, nbv.name))
+            if nbv in values and not nbv.locked:
+                input_str += f"    workflow.input_index(variable_{k}): value_{k},\n"
+                default_value += generate_default_value(values[nbv], k)
+                add_import.extend(update_imports(nbv.type_, nbv.name))
 
         return input_str, default_value, add_import
 
     def to_script(self):
         """ Computes a script representing the WorkflowRun. """
         workflow_script = self.workflow._to_script()
-        input_str, default_value, add_import = self._to_script(workflow_script)
+        input_str, default_value, add_import = self._to_script()
 
         workflow_script.declaration = f"{workflow_script.declaration}\n{default_value}\n\ninput_values =" \
                                       f" {{\n{input_str}}}\nworkflow_run = workflow.run(input_values=input_values)\n"
-- 
2.43.0


From e0e345bc068e7f3fcb08dd323dd1d2c3248b61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:01 +0000
Subject: [PATCH 050/120] fix: runs with inputs that have no type can be
 written as scripts

---
 dessia_common/schemas/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 42d3513..c5d9325 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -577,8 +577,9 @@ class Property:
         return CheckList([])
 
     def get_import_names(self, import_names):
-        """ Process Property and get/update the import names list."""
-        import_names.append(self.serialized)
+        """ Process Property and get/update the import names list. There is nothing to import without annotation. """
+        if self.annotation is not None:
+            import_names.append(self.serialized)
         return import_names
 
 
-- 
2.43.0


From 2832a06ff606afbfb85ab2bca81adb05aabfe754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:59 +0000
Subject: [PATCH 051/120] fix: scripts import what the types of the variables
 need

---
 dessia_common/schemas/core.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index c5d9325..373b339 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -681,6 +681,9 @@ class TypingProperty(Property):
     @property
     def get_import_name(self):
         """ Get class module and name as string."""
+        if self.annotation._name is None:
+            # Not a typing of the standard library
+            return f"{self.origin.__module__}.{self.origin.__name__}"
         return f"{self.annotation.__class__.__module__}.{self.annotation._name}"
 
     def get_import_names(self, import_names):
@@ -734,6 +737,10 @@ class ProxyProperty(TypingProperty):
         """ Deserialize Proxy annotation. """
         raise NotImplementedError(f"Cannot deserialize annotation '{serialized}' as Proxy.")
 
+    def get_import_names(self, import_names):
+        """ Import names of under-proxy-annotation. """
+        return self.schema.get_import_names(import_names=import_names)
+
 
 class OptionalProperty(ProxyProperty):
     """
@@ -753,11 +760,6 @@ class OptionalProperty(ProxyProperty):
         """ Deserialize Optional annotation. """
         raise NotImplementedError("Optional property deserialization not implemented yet. ")
 
-    @property
-    def get_import_name(self):
-        """ Get class module and name as string."""
-        return self.schema.get_import_names([])[0]
-
 
 class AnnotatedProperty(ProxyProperty):
     """
@@ -1626,6 +1628,11 @@ class AnyProperty(Property):
     def __init__(self, annotation: Type[T], attribute: SchemaAttribute):
         super().__init__(annotation=annotation, attribute=attribute)
 
+    @cached_property
+    def pretty_annotation(self) -> str:
+        """ Written without its module, as other annotations. """
+        return "Any"
+
     def to_dict(self) -> Dict[str, Any]:
         """ Write chunk of Any property. Useful for low-code features. """
         chunk = super().to_dict()
-- 
2.43.0


From 93ef4920fd5d33ecc1f4dbd7c084964fef12afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:44 +0000
Subject: [PATCH 052/120] fix: display, export and archive blocks that are
 configured differently are not equivalent

---
 dessia_common/workflow/blocks.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index f453e6b..14cfc2c 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -708,6 +708,14 @@ class Display(Block):
         self.load_by_default = load_by_default
         self.selector = selector
 
+    def equivalent(self, other):
+        """ Return whether the block is equivalent to the other given or not. """
+        if not super().equivalent(other) or self.load_by_default != other.load_by_default:
+            return False
+        if isinstance(self.selector, ViewType) and isinstance(other.selector, ViewType):
+            return self.selector.to_dict() == other.selector.to_dict()
+        return self.selector == other.selector
+
     @property
     def type_(self) -> str:
         """ Get display's type_. """
@@ -1447,6 +1455,11 @@ class Export(Block):
         block.deserialize_variables(dict_)
         return block
 
+    def equivalent(self, other):
+        """ Return whether the block is equivalent to the other given or not. """
+        return (super().equivalent(other) and self.method_type.to_dict() == other.method_type.to_dict()
+                and self.text == other.text and self.extension == other.extension and self.filename == other.filename)
+
     def evaluate(self, values, **kwargs):
         """ Generate to-be-exported stream from corresponding method. """
         filename = f"{values.pop(self.inputs[-1])}.{self.extension}"
@@ -1511,6 +1524,11 @@ class Archive(Block):
         block.deserialize_variables(dict_)
         return block
 
+    def equivalent(self, other):
+        """ Return whether the block is equivalent to the other given or not. """
+        same_number = self.number_exports == other.number_exports
+        return super().equivalent(other) and same_number and self.filename == other.filename
+
     def evaluate(self, values, **kwargs):
         """ Generate archive stream for input streams. """
         name_input = self.inputs[-1]
-- 
2.43.0


From add6ba8f53a9c8ba8b2ef917643b113b3bbcb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:44 +0000
Subject: [PATCH 053/120] fix: the export format of a workflow state can be
 found from its selector

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 03bb767..753e699 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2119,7 +2119,7 @@ class WorkflowState(DessiaObject):
     def export_format_from_selector(self, selector: str):
         """ Get Workflow State format from given selector. """
         for export_format in self.workflow.blocks_export_formats:
-            if export_format["selector"] == selector:
+            if export_format.selector == selector:
                 return export_format
         raise ValueError(f"No block defines an export with the selector '{selector}'")
 
-- 
2.43.0


From ae4fe4eb0438aa33a2e05ea583a7dfba9434ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:18 +0000
Subject: [PATCH 054/120] fix: displaying or exporting a run does not change
 its hash

---
 dessia_common/workflow/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 753e699..96ddddb 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1721,8 +1721,7 @@ class WorkflowState(DessiaObject):
         workflow = hash(self.workflow)
         output = choose_hash(self.output_value)
         input_values = sum(i * choose_hash(v) for (i, v) in self.input_values.items())
-        values = len(self.values) * 7
-        return (workflow + output + input_values + values) % 1000000000
+        return (workflow + output + input_values) % 1000000000
 
     def _data_eq(self, other_object: 'WorkflowState'):
         if not (self.__class__.__name__ == other_object.__class__.__name__
-- 
2.43.0


From 311025e5e1a5034ccf12fdd74e44d9345c17145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:00 +0000
Subject: [PATCH 055/120] fix: items of an empty Dataset, which could not be
 sliced and was iterated forever

---
 dessia_common/datatools/dataset.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index f8fa454..93fc377 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -102,8 +102,6 @@ class Dataset(DessiaObject):
 
         In addition to work as numpy.arrays of dimension `(n,)`, allows to pick a sub-Dataset from a list of indexes.
         """
-        if len(self) == 0:
-            return []
         if isinstance(key, int):
             return self._pick_from_int(key)
         if isinstance(key, slice):
-- 
2.43.0


From 8e69f8ae6f7cdf47e9594220e6363ed31f3ced90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:31 +0000
Subject: [PATCH 056/120] fix: Pareto points equal to another one were left out

---
 dessia_common/datatools/dataset.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index 93fc377..e2e0750 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -808,13 +808,12 @@ class Dataset(DessiaObject):
         :return: A (n_points, ) boolean list, indicating whether each point is Pareto efficient
         """
         is_efficient = npy.ones(len(costs), dtype=bool)
-        costs_array = (costs - npy.mean(costs, axis=0)) / npy.std(costs, axis=0)
+        costs_array = npy.array(costs)
         for index, cost in enumerate(costs_array):
             if is_efficient[index]:
-                # Keep any point with a lower cost
-                is_efficient[is_efficient] = npy.any(costs_array[is_efficient] < cost, axis=1)
-                # And keep self
-                is_efficient[index] = True
+                # Keep any point with a lower cost, and the ones that are equal (of which self)
+                remaining = costs_array[is_efficient]
+                is_efficient[is_efficient] = npy.any(remaining < cost, axis=1) | npy.all(remaining == cost, axis=1)
         return is_efficient.tolist()
 
     @staticmethod
-- 
2.43.0


From bbc6fd08ac8959096469e08a3de5748ea1bb828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:28 +0000
Subject: [PATCH 057/120] fix: common attributes and matrix of a sum or a part
 of a Dataset of several classes

---
 dessia_common/datatools/dataset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index e2e0750..7a9f7cd 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -1,6 +1,5 @@
 """ Library for building Dataset. """
 import itertools
-from copy import copy
 from typing import Any, Dict, List
 
 import numpy as npy
@@ -131,7 +130,7 @@ class Dataset(DessiaObject):
         sum_hlist = self.__class__(dessia_objects=self.dessia_objects + other.dessia_objects,
                                    name=self.name[:5] + '_+_' + other.name[:5])
 
-        if all(item in self.common_attributes for item in other.common_attributes):
+        if self.common_attributes == other.common_attributes:
             sum_hlist._common_attributes = self.common_attributes
             if self._matrix is not None and other._matrix is not None:
                 sum_hlist._matrix = self._matrix + other._matrix
@@ -160,9 +159,8 @@ class Dataset(DessiaObject):
 
     def _pick_from_slice(self, key: slice):
         new_hlist = self.__class__(dessia_objects=self.dessia_objects[key], name=self.name)
-        new_hlist._common_attributes = copy(self._common_attributes)
         new_hlist.dessia_objects = self.dessia_objects[key]
-        if self._matrix is not None:
+        if self._matrix is not None and new_hlist.common_attributes == self.common_attributes:
             new_hlist._matrix = self._matrix[key]
         # new_hlist.name += f"_{key.start if key.start is not None else 0}_{key.stop}")
         return new_hlist
@@ -175,8 +173,7 @@ class Dataset(DessiaObject):
 
     def _pick_from_boolist(self, key: List[bool]):
         new_hlist = self.__class__(dessia_objects=DessiaFilter.apply(self.dessia_objects, key), name=self.name)
-        new_hlist._common_attributes = copy(self._common_attributes)
-        if self._matrix is not None:
+        if self._matrix is not None and new_hlist.common_attributes == self.common_attributes:
             new_hlist._matrix = DessiaFilter.apply(self._matrix, key)
         # new_hlist.name += "_list")
         return new_hlist
-- 
2.43.0


From 70e461ff89712eef7231ebddd85583932d9846a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:49 +0000
Subject: [PATCH 058/120] fix: text of a Dataset, which repeated its first
 objects instead of showing the last ones

---
 dessia_common/datatools/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index 7a9f7cd..cf5fc4a 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -197,7 +197,7 @@ class Dataset(DessiaObject):
             string += (f"\n+ {undispl_len} undisplayed object" + "s" * (min([undispl_len, 2]) - 1) + "...")
 
         if len(self) > 5:
-            string += self._print_objects_slice(slice(-5, len(self)), attr_space)
+            string += self._print_objects_slice(slice(max(5, len(self) - 5), len(self)), attr_space)
         return prefix + "\n" + string + "\n"
 
     def _printed_attributes(self):
@@ -207,7 +207,7 @@ class Dataset(DessiaObject):
 
     def _print_objects_slice(self, key: slice, attr_space: List[int]):
         string = ""
-        for index in range(len(self[key])):
+        for index in range(len(self))[key]:
             string += "\n"
             string += self._print_object(index, attr_space)
         return string
@@ -228,6 +228,7 @@ class Dataset(DessiaObject):
             # attribute
             if len(attr) + 6 > min_col_length:
                 indentation = 3
+                odd_incr = 0
             else:
                 indentation = min_col_length - len(attr)
                 odd_incr = int(indentation % 2)
-- 
2.43.0


From 7a8023c1504170033d3032a989443aabd6232b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:16 +0000
Subject: [PATCH 059/120] fix: real centroids of clusters whose labels are not
 0, 1, 2...

---
 dessia_common/datatools/cluster.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index 1adc1e3..08c5f5e 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -274,12 +274,10 @@ class ClusteredDataset(Dataset):
         """
         clustered_sublists = self._check_transform_sublists()
         kwargs = self._set_distance_kwargs(method, kwargs)
-        labels = clustered_sublists.labels
         cluster_distances = clustered_sublists.cluster_distances(method=method, **kwargs)
-        real_centroids = [[] for _ in labels]
-        for label in labels:
-            min_idx = cluster_distances[label].index(min(cluster_distances[label]))
-            real_centroids[label] = clustered_sublists.dessia_objects[label][min_idx]
+        real_centroids = []
+        for hlist, distances in zip(clustered_sublists.dessia_objects, cluster_distances):
+            real_centroids.append(hlist[distances.index(min(distances))])
         return real_centroids
 
     def _merge_sublists(self):
-- 
2.43.0


From 060e5e4b230714aca47e686293b09477f72447ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:44 +0000
Subject: [PATCH 060/120] fix: sublists of clusters were named after, and
 labelled with, other clusters

---
 dessia_common/datatools/cluster.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index 08c5f5e..eb1ca80 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -132,14 +132,12 @@ class ClusteredDataset(Dataset):
         |    25.0 |             0.11 |           87.0 |     2672.0 |             17.5 |
         |    21.0 |            0.199 |           90.0 |     2648.0 |             15.0 |
         """
-        sublists = []
-        label_tags = sorted(list(map(str, set(self.labels).difference({-1}))))
-        unic_labels = list(set(self.labels))
-        for _ in range(self.n_clusters):
-            sublists.append([])
+        unic_labels = sorted(set(self.labels).difference({-1}))
+        label_tags = list(map(str, unic_labels))
         if -1 in self.labels:
-            sublists.append([])
+            unic_labels.append(-1)
             label_tags.append("outliers")
+        sublists = [[] for _ in unic_labels]
 
         for idx, label in enumerate(self.labels):
             sublists[unic_labels.index(label)].append(self.dessia_objects[idx])
@@ -147,9 +145,7 @@ class ClusteredDataset(Dataset):
         new_dessia_objects = [Dataset(dessia_objects=sublist, name=self.name + f"_{label_tag}")
                               for label_tag, sublist in zip(label_tags, sublists)]
 
-        return ClusteredDataset(new_dessia_objects,
-                                list(set(self.labels).difference({-1})) + ([-1] if -1 in self.labels else []),
-                                name=self.name + "_split")
+        return ClusteredDataset(new_dessia_objects, unic_labels, name=self.name + "_split")
 
     def _check_transform_sublists(self):
         if not isinstance(self.dessia_objects[0], Dataset):
-- 
2.43.0


From e2c3df223eaac55d6370ebb66f8039d6c97c8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:27 +0000
Subject: [PATCH 061/120] fix: families of points of clusters, which raised
 with recent matplotlib and left out labels other than 0, 1, 2...

---
 dessia_common/datatools/cluster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index eb1ca80..e5cebe4 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -305,12 +305,12 @@ class ClusteredDataset(Dataset):
         return sample
 
     def _point_families(self):
-        colormap = plt.cm.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
+        colormap = plt.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
         point_families = []
-        for i_cluster in range(self.n_clusters):
+        for i_cluster, label in enumerate(sorted(set(self.labels).difference({-1}))):
             color = Color(colormap[i_cluster][0], colormap[i_cluster][1], colormap[i_cluster][2])
-            points_index = list(map(int, npy.where(npy.array(self.labels) == i_cluster)[0].tolist()))
-            point_families.append(PointFamily(color, points_index, name="Cluster " + str(i_cluster)))
+            points_index = list(map(int, npy.where(npy.array(self.labels) == label)[0].tolist()))
+            point_families.append(PointFamily(color, points_index, name="Cluster " + str(label)))
 
         if -1 in self.labels:
             color = LIGHTGREY
-- 
2.43.0


From 3026de7128e0b2b0027d7ff230efa822e97e7653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:27 +0000
Subject: [PATCH 062/120] fix: parallel plot of a Dataset, in which attributes
 were missing

---
 dessia_common/datatools/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index cf5fc4a..d61609d 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -691,7 +691,8 @@ class Dataset(DessiaObject):
         # TODO: Put it in plot_data
         (sorted_r2, sorted_association), constant_attributes = self._get_correlations()
         attribute_series = self._get_attribute_trios(sorted_r2, sorted_association)
-        return constant_attributes + self._trios_list_to_parallel_axes(attribute_series)
+        axes = constant_attributes + self._trios_list_to_parallel_axes(attribute_series)
+        return axes + [attribute for attribute in self.common_attributes if attribute not in axes]
 
     def _get_correlations(self):
         r2_scores = []
-- 
2.43.0


From 4eb40d01ea05eba90fde492b0371a1b5e1c99798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:01 +0000
Subject: [PATCH 063/120] fix: sorting a ClusteredDataset did not move the
 labels with the objects

---
 dessia_common/datatools/cluster.py |  4 ++++
 dessia_common/datatools/dataset.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index e5cebe4..67c140e 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -89,6 +89,10 @@ class ClusteredDataset(Dataset):
         # new_hlist.name += "_list")
         return new_hlist
 
+    def _reorder(self, indexes: List[int]):
+        Dataset._reorder(self, indexes)
+        self.labels = [self.labels[idx] for idx in indexes]
+
     def _printed_attributes(self):
         return ["label"] + Dataset._printed_attributes(self)
 
diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index d61609d..1d46c96 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -428,10 +428,12 @@ class Dataset(DessiaObject):
                 sort_indexes = npy.argsort(self.column_values(key))
             elif isinstance(key, str):
                 sort_indexes = npy.argsort(self.attribute_values(key))
-            self.dessia_objects = [self.dessia_objects[idx] for idx in (sort_indexes if ascend else sort_indexes[::-1])]
-            if self._matrix is not None:
-                self._matrix = [self._matrix[idx] for idx in
-                                (sort_indexes if ascend else sort_indexes[::-1])]
+            self._reorder(sort_indexes if ascend else sort_indexes[::-1])
+
+    def _reorder(self, indexes: List[int]):
+        self.dessia_objects = [self.dessia_objects[idx] for idx in indexes]
+        if self._matrix is not None:
+            self._matrix = [self._matrix[idx] for idx in indexes]
 
     def mean(self):
         """
-- 
2.43.0


From ee7e34ccecc49d9a14992a010f135193be1e18cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:25 +0000
Subject: [PATCH 064/120] fix: covariance matrix of a single feature was a
 number

---
 dessia_common/datatools/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/datatools/metrics.py b/dessia_common/datatools/metrics.py
index f91ea3f..fd99e62 100644
--- a/dessia_common/datatools/metrics.py
+++ b/dessia_common/datatools/metrics.py
@@ -196,7 +196,7 @@ def covariance_matrix(matrix):
     [70.58986267712706, -0.6737370735267286]
     [-0.6737370735267286, 0.011008722272395539]
     """
-    return npy.cov(matrix, dtype=float).tolist()
+    return npy.atleast_2d(npy.cov(matrix, dtype=float)).tolist()
 
 
 def std(vector):
-- 
2.43.0


From 2a0192658a8e81bb89b37398f1cd8777c928d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:13 +0000
Subject: [PATCH 065/120] fix: text files read from a stream have the class
 they are asked for

---
 dessia_common/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/files.py b/dessia_common/files.py
index f20d390..3e546fa 100644
--- a/dessia_common/files.py
+++ b/dessia_common/files.py
@@ -82,7 +82,7 @@ class StringFile(io.StringIO):
     @classmethod
     def from_stream(cls, stream_file):
         """ Get a file from a stream file. """
-        stream = StringFile()
+        stream = cls()
         stream.write(stream_file.read().decode('utf-8'))
         stream.seek(0)
         return stream
-- 
2.43.0


From 609d37b74f7ffd2b846cbc13a225c7d45ad9a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:13 +0000
Subject: [PATCH 066/120] fix: templates of files are saved with their
 extension when the name ends with its letters

---
 dessia_common/files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/files.py b/dessia_common/files.py
index 3e546fa..4999e81 100644
--- a/dessia_common/files.py
+++ b/dessia_common/files.py
@@ -39,7 +39,7 @@ class BinaryFile(io.BytesIO):
     @classmethod
     def save_template_to_file(cls, filename):
         """ Save template of class into a file. """
-        if cls.extension and not filename.endswith(cls.extension):
+        if cls.extension and not filename.endswith(f'.{cls.extension}'):
             filename = f'{filename}.{cls.extension}'
         with open(filename, 'wb') as file:
             stream = cls.stream_template()
@@ -99,7 +99,7 @@ class StringFile(io.StringIO):
     @classmethod
     def save_template_to_file(cls, filename):
         """ Save instantiated template into a file. """
-        if cls.extension and not filename.endswith(cls.extension):
+        if cls.extension and not filename.endswith(f'.{cls.extension}'):
             filename = f'{filename}.{cls.extension}'
         with open(filename, 'w', encoding='utf-8') as file:
             stream = cls.stream_template()
-- 
2.43.0


From 23d6079c745c99dcb10be4b53003f08d34264cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:58 +0000
Subject: [PATCH 067/120] fix: removing from its step an input that is in none
 does not duplicate it

---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 96ddddb..859afd2 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1448,9 +1448,11 @@ class Workflow(Block):
     def remove_input_from_step(self, input_index: int):
         """ Callable from frontend. """
         input_ = self.inputs[input_index]
-        self.spare_inputs.append(input_)
         current_step = self.find_input_step(input_)
+        if current_step is None:
+            raise ValueError(f"Input '{input_.name}', labelled '{input_.label}' is not in any step.")
         current_step.inputs.remove(input_)
+        self.spare_inputs.append(input_)
         return self.method_schemas["run"]
 
     def reorder_step_inputs(self, step_index: int, order: list[int]):
-- 
2.43.0


From 468c34951c55183cd52df2465648ff599b815616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:58 +0000
Subject: [PATCH 068/120] fix: orders of step inputs that repeat one of them
 are refused

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 859afd2..97d1f58 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1459,7 +1459,7 @@ class Workflow(Block):
         """ Callable from frontend. """
         step = self.steps[step_index]
         step_input_indices = [self.input_index(v) for v in step.inputs]
-        if set(step_input_indices) != set(order):
+        if sorted(step_input_indices) != sorted(order):
             raise ValueError(f"Reordering inputs of step '{step.label}' failed. "
                              f"Given order '{order}' does not match step inputs of indices '{step_input_indices}'")
         step.inputs = [self.inputs[i] for i in order]
-- 
2.43.0


From ba7f79652dd83f9d57e476b3ecd96ef041976c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:58 +0000
Subject: [PATCH 069/120] fix: orders of steps that repeat one of them with a
 negative index are refused

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 97d1f58..08b2bdf 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1485,7 +1485,7 @@ class Workflow(Block):
         if len(order) != len(self.steps):
             raise ValueError(f"Given order '{order}' of length '{len(order)}' is missing items."
                              f"It should be of length '{len(self.steps)}' ")
-        if len(set(order)) != len(self.steps):
+        if len({i % len(self.steps) for i in order}) != len(self.steps):
             raise ValueError(f"Duplicated indices found in given order '{order}'")
         self.steps = [self.steps[i] for i in order]
         return self.method_schemas["run"]
-- 
2.43.0


From 7ae8b4e4ded7d2b3dd7ba1d98891b3a32bac431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:58 +0000
Subject: [PATCH 070/120] fix: an unknown step display does not move inputs

---
 dessia_common/workflow/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 08b2bdf..da63637 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1516,6 +1516,9 @@ class Workflow(Block):
     def add_step_display(self, variable_index: int, step_index: int, selector: str):
         """ Callable from frontend. """
         variable = self.variables[variable_index]
+        step = self.steps[step_index]
+        display_setting = display_settings_from_selector(display_settings=variable.available_display_settings,
+                                                         selector=selector)
         upstream_inputs = self.upstream_inputs(variable)
         previous_step_inputs = [input_ for step in self.steps[:step_index] for input_ in step.inputs]
         for input_ in upstream_inputs:
@@ -1523,9 +1526,6 @@ class Workflow(Block):
                 continue
             index = self.input_index(input_)
             self.change_input_step(input_index=index, new_step_index=step_index)
-        step = self.steps[step_index]
-        display_setting = display_settings_from_selector(display_settings=variable.available_display_settings,
-                                                         selector=selector)
         step.add_display_setting(display_setting=display_setting, inputs=upstream_inputs, variable_index=variable_index)
         return self.method_schemas["run"]
 
-- 
2.43.0


From 9abd0d941b80087244ce9a113ee25015b8cea8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:58 +0000
Subject: [PATCH 071/120] fix: copied steps keep the group inputs that are in
 other steps

---
 dessia_common/workflow/core.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index da63637..39e0d10 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -577,14 +577,8 @@ class Workflow(Block):
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
-        inputs = []
-        group_inputs = []
-        for input_ in step.inputs:
-            input_index = self.variable_indices(input_)
-            copied_input = copied_workflow.variable_from_index(input_index)
-            inputs.append(copied_input)
-            if input_ in step.group_inputs:
-                group_inputs.append(copied_input)
+        inputs = [copied_workflow.variable_from_index(self.variable_indices(i)) for i in step.inputs]
+        group_inputs = [copied_workflow.variable_from_index(self.variable_indices(i)) for i in step.group_inputs]
         copied_step = Step(label=step.label, inputs=inputs, group_id=step.group_id, documentation=step.documentation,
                            display_variable_index=step.display_variable_index, id_=step.id_)
         copied_step.group_inputs = group_inputs
-- 
2.43.0


From 18487837624031f71a457dd42a8c5cb41ef2acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:32 +0000
Subject: [PATCH 072/120] fix: upstream blocks and inputs do not come in an
 order that changes from run to run

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 39e0d10..40bb4d4 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1016,7 +1016,7 @@ class Workflow(Block):
         """ Return a list of given block's upstream blocks. """
         upstream_variables = self.block_upstream_variables(block)
         upstream_blocks = [self.block_from_variable(v) for v in upstream_variables["wired"]]
-        return list(set(upstream_blocks))
+        return list(dict.fromkeys(upstream_blocks))
 
     def upstream_branch(self, block: Block) -> List[Block]:
         return self._branch_blocks(block=block, condition=self.has_upstream_block, include_last=True)
@@ -1053,7 +1053,7 @@ class Workflow(Block):
         for block in branch_blocks:
             upstream_variables = self.block_upstream_variables(block)
             upstream_inputs.extend(upstream_variables["available"] + upstream_variables["nonblock"])
-        return list(set(upstream_inputs))
+        return list(dict.fromkeys(upstream_inputs))
 
     def variable_indices(self, variable: Variable) -> Optional[Union[Tuple[int, int, int], int]]:
         """
-- 
2.43.0


From a3b0cf282be563b7ce15490b0769fc6efeb7890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:32 +0000
Subject: [PATCH 073/120] fix: workflows with other steps are not equal

---
 dessia_common/workflow/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 40bb4d4..2574439 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -311,10 +311,12 @@ class Step:
 
     def __eq__(self, other: 'Step'):
         same_label = self.label == other.label
-        same_inputs = all(i.equivalent(other_i) for i, other_i in zip(self.inputs, other.inputs))
-        same_group = all(i.equivalent(other_i) for i, other_i in zip(self.group_inputs, other.group_inputs))
+        same_inputs = len(self.inputs) == len(other.inputs) \
+            and all(i.equivalent(other_i) for i, other_i in zip(self.inputs, other.inputs))
+        same_group = len(self.group_inputs) == len(other.group_inputs) \
+            and all(i.equivalent(other_i) for i, other_i in zip(self.group_inputs, other.group_inputs))
         same_display = self.display_setting == other.display_setting
-        same_documentation = len(self.documentation) == len(other.documentation)
+        same_documentation = self.documentation == other.documentation
         same_variable = self.display_variable_index == other.display_variable_index
         return same_label and same_inputs and same_group and same_display and same_documentation and same_variable
 
@@ -497,6 +499,8 @@ class Workflow(Block):
         if not self._equivalent_pipes(other_object):
             return False
 
+        if len(self.steps) != len(other_object.steps):
+            return False
         if not all(s == other_s for s, other_s in zip(self.steps, other_object.steps)):
             return False
         return True
-- 
2.43.0


From 967bd03d9eec0ab26ba0ca8f5316a55e8719df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:03 +0000
Subject: [PATCH 074/120] fix: layout of graphs with several ends

---
 dessia_common/graph.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dessia_common/graph.py b/dessia_common/graph.py
index 98d216c..f9c09b9 100644
--- a/dessia_common/graph.py
+++ b/dessia_common/graph.py
@@ -86,15 +86,12 @@ def get_column_by_node(graph: nx.DiGraph):
     for node in longest_path:
         columns[node] = longest_path.index(node)
 
-    for node in [n for n in graph.nodes if n not in longest_path]:
+    for node in [n for n in nx.topological_sort(graph) if n not in longest_path]:
         try:
             path = get_longest_path(graph, node, end_of_path)
             columns[node] = len(longest_path) - len(path)
         except nx.exception.NetworkXNoPath:
             # There is no path from node to end_of_path
-            for path in get_paths_from_to(graph, list(graph.nodes), [node]):
-                column_index = columns[path[0]] + len(path) - 1
-                if node not in columns or columns[node] < column_index:
-                    columns[node] = column_index
+            columns[node] = max((columns[p] + 1 for p in graph.predecessors(node)), default=0)
 
     return columns
-- 
2.43.0


From e0672ee8ec9c2027c5440b71dfcd9da031888667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:03 +0000
Subject: [PATCH 075/120] fix: columns of the layout of workflows come in order

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 2574439..786db5d 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1208,7 +1208,7 @@ class Workflow(Block):
         for node, column_index in column_by_node.items():
             node_index = self.nodes.index(node)
             nodes_by_column[column_index] = nodes_by_column.get(column_index, []) + [node_index]
-        return list(nodes_by_column.values())
+        return [nodes_by_column[i] for i in sorted(nodes_by_column)]
 
     def layout(self):
         """
-- 
2.43.0


From d8a29f0ae03beadbc13f7427ac7a146a66f35964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:03 +0000
Subject: [PATCH 076/120] fix: types of unknown items do not raise when they
 are matched

---
 dessia_common/utils/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 125526c..aee984e 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Types tools. """
 
+from inspect import isclass
 import warnings
 from collections.abc import Iterator, Sequence
 from typing import Any, Dict, List, Tuple, Type, Union, get_origin, get_args
@@ -313,7 +314,7 @@ def typematch(type_: Type, match_against: Type) -> bool:
 
     if not is_typing(match_against):
         # type_ and match_against aren't complex : check for subclass only
-        if issubclass(type_, match_against):
+        if isclass(type_) and isclass(match_against) and issubclass(type_, match_against):
             return True
 
     # type_ is not complex and match_against is
-- 
2.43.0


From c658a6eb5901e41b244c1a1e99db120cb08955d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:16 +0000
Subject: [PATCH 077/120] fix: a block that several blocks of a branch need is
 once in it

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 786db5d..cea60ca 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -927,7 +927,7 @@ class Workflow(Block):
                     candidates.extend(self.upstream_blocks(upstream_block))
                 elif include_last:
                     branch_blocks.insert(0, upstream_block)
-            upstream_blocks = [b for b in candidates if b not in branch_blocks]
+            upstream_blocks = [b for b in dict.fromkeys(candidates) if b not in branch_blocks]
             i += 1
         return branch_blocks
 
-- 
2.43.0


From 6b6564cb9420bf382330198e6595ed398b6a986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:19 +0000
Subject: [PATCH 078/120] fix: Word exports are binary

---
 dessia_common/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/decorators.py b/dessia_common/decorators.py
index 28dfc5d..7bedfce 100644
--- a/dessia_common/decorators.py
+++ b/dessia_common/decorators.py
@@ -158,7 +158,7 @@ def export_docx(selector: str):
 
     :param str selector: Unique name that identifies the export method.
     """
-    return export_decorator(selector, 'docx', is_text=True)
+    return export_decorator(selector, 'docx', is_text=False)
 
 
 def export_xlsx(selector: str):
-- 
2.43.0


From 0ae10eee82802ed8fb580bf6909a26fdc40b5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:19 +0000
Subject: [PATCH 079/120] fix: archives of exports do not hold several files of
 the same name

---
 dessia_common/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 153788c..2ef8283 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -557,12 +557,17 @@ class DessiaObject(SerializableObject):
     def zip_settings(self):
         """ Returns a list of streams that contain different exports of the objects. """
         streams = []
+        filenames = []
         for export_format in self._export_formats():
             if export_format.extension != "zip":
                 method_name = export_format.method_name
                 stream_class = dcf.StringFile if export_format.text else dcf.BinaryFile
-                stream = stream_class(filename=f"export.{export_format.extension}")
-                getattr(self, method_name)(stream)
+                filename = f"export.{export_format.extension}"
+                if filename in filenames:
+                    filename = f"export_{export_format.selector}.{export_format.extension}"
+                filenames.append(filename)
+                stream = stream_class(filename=filename)
+                getattr(self, method_name)(stream, **export_format.args)
                 streams.append(stream)
         return streams
 
-- 
2.43.0


From 841bcf0682cac61d93337914dc586c2ec2e05727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:19 +0000
Subject: [PATCH 080/120] fix: markdown tables show each row once and tell how
 many are not shown

---
 dessia_common/exports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index dcd2755..5bc5dc4 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -369,7 +369,7 @@ class MarkdownWriter:
         return string
 
     def _content_table(self, content: List[List[Any]]) -> str:
-        if self.table_limit is None:
+        if self.table_limit is None or len(content) <= self.table_limit:
             return self._table_rows_from_content(content)
 
         table = ''
@@ -379,7 +379,7 @@ class MarkdownWriter:
 
         if self.table_limit > 1:
             if len(content) > self.table_limit:
-                table += f"| + {len(content) - self.table_limit} unprinted elements | |\n"
+                table += f"| + {len(content) - 2 * half_table} unprinted elements | |\n"
 
             if len(content) > half_table:
                 table += self._table_rows_from_content(content[-half_table:])
-- 
2.43.0


From 3d46b9fb920fb83fdf6c07a6a288b55edbd2cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:19 +0000
Subject: [PATCH 081/120] fix: complex values do not raise in markdown tables

---
 dessia_common/exports.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 5bc5dc4..8066795 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -326,8 +326,10 @@ class MarkdownWriter:
         return 'unnamed'
 
     def _value_to_str(self, value: Any) -> str:
-        if isinstance(value, (float, int, bool, complex)):
+        if isinstance(value, (float, int, bool)):
             return str(round(value, 6))
+        if isinstance(value, complex):
+            return str(value)
         if isinstance(value, str):
             return value if value != '' else 'no value'
         if is_sequence(value):
-- 
2.43.0


From fa4a95de906950893e11e62e2110930b8261f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:19 +0000
Subject: [PATCH 082/120] fix: texts of several lines do not break markdown
 tables

---
 dessia_common/exports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 8066795..49c6b20 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -341,6 +341,7 @@ class MarkdownWriter:
         return self._object_to_str(value)
 
     def _string_in_table(self, string: str = ''):
+        string = ' '.join(string.splitlines())
         return string[:self.print_limit] + ('...' if len(string) > self.print_limit else '')
 
     def object_matrix(self, object_):
-- 
2.43.0


From 5415675233594c4382023d8ca61375c75c83df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:19 +0000
Subject: [PATCH 083/120] fix: headings of Word documents have the level of
 their markdown

---
 dessia_common/document_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/document_generator.py b/dessia_common/document_generator.py
index 4d0814a..a03f5b5 100644
--- a/dessia_common/document_generator.py
+++ b/dessia_common/document_generator.py
@@ -99,7 +99,8 @@ class Heading:
     @classmethod
     def from_markdown(cls, markdown_text: str):
         """ Create a new Paragraph object from Markdown text. """
-        return cls(text=markdown_text.strip("#"), level=markdown_text.count("#"))
+        text = markdown_text.lstrip("#")
+        return cls(text=text.strip(), level=len(markdown_text) - len(text))
 
 
 class Paragraph:
@@ -307,7 +308,7 @@ class DocxWriter:
             if isinstance(item, Paragraph):
                 docx_writer.paragraphs = [item]
                 if item.text.startswith('#'):
-                    docx_writer.add_paragraph_as_heading(text=item.text.strip(' # '))
+                    Heading.from_markdown(item.text).add_to_document(docx_writer.document)
                 else:
                     docx_writer.add_paragraphs(add_heading=False)
             if isinstance(item, Table):
-- 
2.43.0


From a4ffa297b1557b97bc1665138af1151d8ebbf9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:19 +0000
Subject: [PATCH 084/120] fix: lines of markdown that hold dashes are kept in
 Word documents

---
 dessia_common/document_generator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dessia_common/document_generator.py b/dessia_common/document_generator.py
index a03f5b5..e0369ad 100644
--- a/dessia_common/document_generator.py
+++ b/dessia_common/document_generator.py
@@ -279,7 +279,7 @@ class DocxWriter:
         """
         elements, headings = [], []
         table_pattern = re.compile(r'^\|.*\|$')
-        horizontal_line_pattern = re.compile(r'^\s*\|?\s*-+\s*\|?\s*(-+\s*\|?)*\s*$')
+        horizontal_line_pattern = re.compile(r'^\|?\s*:?-{3,}:?\s*(\|\s*:?-{3,}:?\s*)*\|?$')
 
         for line in markdown_text.split('\n'):
             line = line.strip()
@@ -288,14 +288,15 @@ class DocxWriter:
                     headings.append(Heading.from_markdown(line))
                     elements.append(Paragraph.from_markdown(markdown_text=line))
 
-                elif table_pattern.match(line) and not horizontal_line_pattern.match(line):
+                elif horizontal_line_pattern.match(line):
+                    continue
+
+                elif table_pattern.match(line):
                     row = line.strip('|').split('|')
-                    if '---' not in line:
-                        elements.append(Table(rows=[row]))
+                    elements.append(Table(rows=[row]))
 
                 else:
-                    if '---' not in line:
-                        elements.append(Paragraph.from_markdown(markdown_text=line))
+                    elements.append(Paragraph.from_markdown(markdown_text=line))
         return headings, elements
 
     @classmethod
-- 
2.43.0


From d43bbda43991f147e8807ad934fa520fad05d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:06 +0000
Subject: [PATCH 085/120] fix: XLSXWriter can save to a file

---
 dessia_common/exports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 49c6b20..502554f 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -262,7 +262,7 @@ class XLSXWriter:
             filepath += '.xlsx'
             print(f"Changing name to {filepath}")
 
-        with open(filepath, 'rb') as file:
+        with open(filepath, 'wb') as file:
             self.save_to_stream(file)
 
     def save_to_stream(self, stream):
-- 
2.43.0


From 3854dcae9de4288ea3c06bf77bc4fab9ff369fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:06 +0000
Subject: [PATCH 086/120] fix: links of Excel exports lead to sheets that exist

---
 dessia_common/exports.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 502554f..c991ef8 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -129,10 +129,11 @@ class XLSXWriter:
         """ Compute the hyperlink for given value."""
         cell_link = None
         if value:
-            if isinstance(value, dict):
-                cell_link = f'#{list(value.values())[0].__class__.__name__}!A2'
-            elif isinstance(value, (list, set)) and not is_builtins_list(value):
-                cell_link = f'#{value[0].__class__.__name__}!A2'
+            if isinstance(value, (dict, list, set)):
+                items = value.values() if isinstance(value, dict) else value
+                class_name = next(iter(items)).__class__.__name__
+                if class_name in self.classes_to_sheets:
+                    cell_link = f'#{self.classes_to_sheets[class_name].title}!A2'
             elif is_hashable(value) and value in self.object_to_sheet_row:
                 ref_sheet, ref_row_number, _ = self.object_to_sheet_row[value]
                 cell_link = f'#{ref_sheet.title}!A{ref_row_number+2}'
-- 
2.43.0


From 3880ecfd2789df394471d1573e0f434e6417b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:06 +0000
Subject: [PATCH 087/120] fix: texts that start with an equal sign are not
 formulas in Excel exports

---
 dessia_common/exports.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index c991ef8..8a67a69 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -163,6 +163,8 @@ class XLSXWriter:
             cell_content = str(value)
 
         cell = sheet.cell(row=row_number, column=column_number, value=cell_content)
+        if isinstance(cell_content, str):
+            cell.data_type = 's'
 
         cell_link = self.compute_cell_link(value=value)
         if cell_link:
@@ -176,6 +178,8 @@ class XLSXWriter:
         cell.border = self.thin_border
         if hasattr(obj, 'name'):
             cell = sheet.cell(row=row_number, column=2, value=obj.name)
+            if isinstance(obj.name, str):
+                cell.data_type = 's'
         else:
             cell = sheet.cell(row=row_number, column=2, value='No name in model')
 
@@ -212,6 +216,8 @@ class XLSXWriter:
         sheet['A2'] = self.object.__module__
         sheet['B2'] = self.object.__class__.__name__
         sheet['C2'] = self.object.name
+        if isinstance(self.object.name, str):
+            sheet['C2'].data_type = 's'
 
         sheet['A2'].border = self.thin_border
         sheet['B2'].border = self.thin_border
-- 
2.43.0


From b36bc560fb56c0d88fb1c49eeffc458c7958af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:06 +0000
Subject: [PATCH 088/120] fix: objects read from Excel are those their links
 lead to

---
 dessia_common/excel_reader.py | 62 +++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index 97e3cad..2706d83 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -115,6 +115,7 @@ class ExcelReader:
         self.workbook = openpyxl.load_workbook(stream, data_only=True)
         self.sheet_titles = [sheet.title for sheet in self.workbook.worksheets]
         self.main_sheet = self.workbook.worksheets[0].title
+        self._linked_objects = {}
 
     def get_location(self, cell: openpyxl.cell.cell.Cell) -> Tuple[str, str]:
         """
@@ -143,30 +144,34 @@ class ExcelReader:
           - For 'Dict' type: a dictionary with keys extracted from the cell
             and replaced values from the 'values' parameter.
           - For other types (excluding 'List', 'Set', 'Tuple'): Replaces the values with
-            the first element of 'values' if 'values' is a list and 'cell.value' does not
-            contain any of the container types.
+            the element of 'values' that the link of the cell leads to, if 'values' is a list.
           - Otherwise, 'values' itself.
         """
-        container = ["Dict", "List", "Set", "Tuple"]
-        target = self.get_location(cell)
+        sheet_title, address = self.get_location(cell)
         dict_keys = []
-        if "Dict" in cell.value:
+        if cell.value.startswith("Dict "):
             actual_value = {}
-            sheet = self.workbook[target]
+            sheet = self.workbook[sheet_title]
             column = sheet["A"]
             for row in column[3:]:
-                dict_keys.append(row.value.split('.')[1])
+                dict_keys.append(row.value.split('.')[-1])
 
             for key, value in zip(dict_keys, values):
                 actual_value[key] = value
 
             return actual_value
 
-        if isinstance(values, list) and (not any(type_ in cell.value for type_ in container)):
-            actual_value = values[0]
-        else:
-            actual_value = values
-        return actual_value
+        if cell.value.startswith("Set "):
+            return set(values)
+
+        if isinstance(values, list) and not self.is_container(cell):
+            return values[int(address[1:]) - 4]
+        return values
+
+    @staticmethod
+    def is_container(cell) -> bool:
+        """ Whether the link of the cell leads to several objects. """
+        return cell.value.startswith(("Dict ", "List ", "Set ", "Tuple "))
 
     @staticmethod
     def get_data(values: List[T], attributes: List[str], init_attributes: List[str]) -> Dict[str, T]:
@@ -214,9 +219,7 @@ class ExcelReader:
 
         value_set = list(extracted_data.data.values())[0]
         for index, value in enumerate(value_set):
-            if isinstance(value, openpyxl.cell.cell.Cell):
-                replaced_value = instantiated_objects[self.get_location(value)[0]]
-                value_set[index] = self.update_attribute_values(value, replaced_value)
+            value_set[index] = self.process_sub_objects(value, self.workbook)
 
         objects.append(self.create_object(extracted_data, value_set))
         instantiated_objects[key] = objects
@@ -233,18 +236,23 @@ class ExcelReader:
         """
         if isinstance(cell, openpyxl.cell.cell.Cell):
             sheet_title, row_target = self.get_location(cell)
-            sub_module_name = workbook[sheet_title]["A2"].value
-            sub_class_name = workbook[sheet_title]["B2"].value
-            sheet_target = workbook[sheet_title]
-            sub_attributes = list(sheet_target.iter_rows(min_row=3, max_row=3, min_col=2, values_only=True))[0]
-
-            moment_values = [c.value for c in sheet_target[int(row_target[1:])][1:]]
-            extracted_data = ExcelDataExtract(class_module=sub_module_name, class_name=sub_class_name,
-                                              attributes=sub_attributes, data=None)
-
-            return self.create_object(extracted_data, moment_values)
+            if self.is_container(cell):
+                values = [self.read_linked_object(workbook[sheet_title], row)
+                          for row in range(4, workbook[sheet_title].max_row + 1)]
+                return self.update_attribute_values(cell, values)
+            return self.read_linked_object(workbook[sheet_title], int(row_target[1:]))
         return cell
 
+    def read_linked_object(self, sheet, row: int):
+        """ Instantiate the object of given row of a sheet, once. """
+        if (sheet.title, row) not in self._linked_objects:
+            attributes = list(sheet.iter_rows(min_row=3, max_row=3, min_col=2, values_only=True))[0]
+            values = [self.process_sub_objects(c if c.hyperlink else c.value, sheet.parent) for c in sheet[row][1:]]
+            extracted_data = ExcelDataExtract(class_module=sheet["A2"].value, class_name=sheet["B2"].value,
+                                              attributes=attributes, data=None)
+            self._linked_objects[(sheet.title, row)] = self.create_object(extracted_data, values)
+        return self._linked_objects[(sheet.title, row)]
+
     def process_multiple_hyperlink_rows(self, instantiated_objects: Dict, extracted_data: ExcelDataExtract, key: str):
         """
         Process multiple rows in a sheet, each representing an object with hyperlinks.
@@ -276,9 +284,7 @@ class ExcelReader:
         objects = []
         value_set = list(extracted_data.data.values())[0]
         for k, cell in enumerate(value_set):
-            if isinstance(cell, openpyxl.cell.cell.Cell):
-                val_replace = instantiated_objects[self.get_location(cell)[0]]
-                value_set[k] = self.update_attribute_values(cell, val_replace)
+            value_set[k] = self.process_sub_objects(cell, self.workbook)
 
         objects.append(self.create_object(extracted_data, value_set))
 
-- 
2.43.0


From abd8060fda5032393d386175f6ba64af150e3b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:06 +0000
Subject: [PATCH 089/120] fix: texts read from Excel stay texts

---
 dessia_common/excel_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index 2706d83..581fe8e 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -174,20 +174,20 @@ class ExcelReader:
         return cell.value.startswith(("Dict ", "List ", "Set ", "Tuple "))
 
     @staticmethod
-    def get_data(values: List[T], attributes: List[str], init_attributes: List[str]) -> Dict[str, T]:
+    def get_data(values: List[T], attributes: List[str], init_attributes: Dict[str, Any]) -> Dict[str, T]:
         """
         Extracts relevant data based on attributes and initial attributes for object instantiation.
 
         :param values: List containing values corresponding to attributes.
         :param attributes: List of attributes related to the object.
-        :param init_attributes: List of initial attributes for object instantiation.
+        :param init_attributes: Initial attributes for object instantiation, with their types.
 
         :return: Dictionary containing extracted object data based on matching attributes and initial attributes.
         """
         object_data = {}
         for attribute, value in zip(attributes, values):
             if attribute in init_attributes:
-                if isinstance(value, str):
+                if isinstance(value, str) and init_attributes[attribute]["type"] is not str:
                     try:
                         object_data[attribute] = literal_eval(value)
                     except (ValueError, SyntaxError):
-- 
2.43.0


From ad9430b37869e33d2ae8d04f58aff31769b72562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:01 +0000
Subject: [PATCH 090/120] fix: whole numbers read from Excel are floats where
 floats are expected

---
 dessia_common/excel_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index 581fe8e..de25b51 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -192,6 +192,8 @@ class ExcelReader:
                         object_data[attribute] = literal_eval(value)
                     except (ValueError, SyntaxError):
                         object_data[attribute] = value
+                elif type(value) is int and init_attributes[attribute]["type"] is float:
+                    object_data[attribute] = float(value)
                 else:
                     object_data[attribute] = value
         return object_data
-- 
2.43.0


From 779020dc5ec8db77952def83556dc08476fe2cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:01 +0000
Subject: [PATCH 091/120] fix: empty dicts and sets are read from Excel

---
 dessia_common/excel_reader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index de25b51..54bb344 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -27,6 +27,9 @@ def check_duplicate_attributes(attributes: List[str]) -> Optional[str]:
     return None
 
 
+EMPTY_CONTAINERS = {"Dict of 0 items": dict, "Set of 0 items": set}
+
+
 class ExcelDataExtract:
     """
     Data extracted from sheet of Excel file.
@@ -188,6 +191,9 @@ class ExcelReader:
         for attribute, value in zip(attributes, values):
             if attribute in init_attributes:
                 if isinstance(value, str) and init_attributes[attribute]["type"] is not str:
+                    if value in EMPTY_CONTAINERS:
+                        object_data[attribute] = EMPTY_CONTAINERS[value]()
+                        continue
                     try:
                         object_data[attribute] = literal_eval(value)
                     except (ValueError, SyntaxError):
-- 
2.43.0


From 6c8dd3114800d9285ed0d1e4a3c89eb8008f3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:21 +0000
Subject: [PATCH 092/120] fix: checks of builtin types get the level asked

---
 dessia_common/checks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/checks.py b/dessia_common/checks.py
index 5b25f29..cde8c2f 100644
--- a/dessia_common/checks.py
+++ b/dessia_common/checks.py
@@ -142,11 +142,11 @@ def type_check(value, expected_type, level: str = 'error'):
     This is experimental!
     """
     if expected_type is int:
-        return is_int(value)
+        return is_int(value, level=level)
     if expected_type is float:
-        return is_float(value)
+        return is_float(value, level=level)
     if expected_type is str:
-        return is_str(value)
+        return is_str(value, level=level)
 
     if not isinstance(value, expected_type):
         return CheckList([FailedCheck(f'Value {value} is not of type {expected_type}')])
-- 
2.43.0


From 75f1266a7f4467ae136069abdff1535112a0907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:21 +0000
Subject: [PATCH 093/120] fix: nodes with a label and no name can be drawn

---
 dessia_common/displays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/displays.py b/dessia_common/displays.py
index 16c0a59..87a4555 100644
--- a/dessia_common/displays.py
+++ b/dessia_common/displays.py
@@ -131,7 +131,7 @@ def networkx_to_visjs_data(networkx_graph: Graph):
         elif "name" in node_dict and "label" not in node_dict:
             node_data["label"] = node_dict["name"]
         else:
-            node_data["label"] = node_dict["name"] + node_dict["label"]
+            node_data["label"] = node_dict.get("name", "") + node_dict["label"]
 
         if "shape" not in node_dict:
             node_data["shape"] = "circular"
-- 
2.43.0


From 31d0ef52c4985d9490f2f5224ee937a30ff44465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:33 +0000
Subject: [PATCH 094/120] fix: generation ends when the last node of the tree
 is not valid

---
 dessia_common/generation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/generation.py b/dessia_common/generation.py
index 65e7c64..49e8491 100644
--- a/dessia_common/generation.py
+++ b/dessia_common/generation.py
@@ -121,6 +121,9 @@ class DecisionTreeGenerator(TreeGenerator):
                 if verbose:
                     print('number possibilities', number_possibilities)
                 self.tree.SetCurrentNodeNumberPossibilities(number_possibilities)
+            else:
+                # Nothing to explore below
+                self.tree.SetCurrentNodeNumberPossibilities(0)
 
             # TODO create a function in dectree to know if a leaf
             if valid and (number_possibilities == 0):
-- 
2.43.0


From d5243650c6d0c60529ca3ad1a27def75acca9891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:16 +0000
Subject: [PATCH 095/120] fix: indices of values in lists that decrease or hold
 twice a value

---
 dessia_common/utils/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/interpolation.py b/dessia_common/utils/interpolation.py
index b928f2b..53efd65 100644
--- a/dessia_common/utils/interpolation.py
+++ b/dessia_common/utils/interpolation.py
@@ -10,7 +10,9 @@ def istep_from_value_on_list(list_: List[float], value: float,
     for ipoint, (point1, point2) in enumerate(zip(list_[:-1], list_[1:])):
         point1_s, point2_s = sorted((point1, point2))
         if point1_s <= value <= point2_s:
-            alpha = (value - point1_s) / (point2_s - point1_s)
+            if point1 == point2:
+                return float(ipoint)
+            alpha = (value - point1) / (point2 - point1)
             if alpha < 0 or alpha > 1:
                 raise ValueError
             return ipoint + alpha
-- 
2.43.0


From c9abcb6778b46424614a48cfd4ac7f1f72987403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:16 +0000
Subject: [PATCH 096/120] fix: values of periodic parameters are equal across
 the period

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 2ef8283..e531a45 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -781,8 +781,8 @@ class Parameter(DessiaObject):
     def are_values_equal(self, value1, value2, tol=1e-2):
         """ Check equality according to given tolerance. """
         if self.periodicity is not None:
-            value1 = value1 % self.periodicity
-            value2 = value2 % self.periodicity
+            difference = abs(value1 - value2) % self.periodicity
+            return min(difference, self.periodicity - difference) <= tol
 
         return math.isclose(value1, value2, abs_tol=tol)
 
-- 
2.43.0


From 74992e157281bbc3932e0de3ab50ede7ef9078c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:16 +0000
Subject: [PATCH 097/120] fix: the gradient starts from the optimum that CMA
 found

---
 dessia_common/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/optimization.py b/dessia_common/optimization.py
index a995b7f..abe4a89 100644
--- a/dessia_common/optimization.py
+++ b/dessia_common/optimization.py
@@ -163,7 +163,8 @@ class InstantiatingModelOptimizer(Optimizer):
     def optimize_cma_then_gradient(self, method: str = 'L-BFGS-B'):
         """ Optimize a problem by combining a CMA for global optimum search and gradient for polishing. """
         model_cma, fx_cma = self.optimize_cma()
-        x0 = npy.array([getattr(model_cma, attr.attribute_name) for attr in self.optimization_bounds])
+        x0 = npy.array([bound.dimensionless_value(getattr(model_cma, bound.attribute_name))
+                        for bound in self.optimization_bounds])
         model, best_fx = self.optimize_gradient(method=method, x0=x0)
         if fx_cma <= best_fx:
             model = model_cma
-- 
2.43.0


From ed6866111e743f525f57a931f8ba7c7d29f658c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 098/120] fix: validity of workflows with pipes can be asked

---
 dessia_common/workflow/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index cea60ca..6be956c 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1284,11 +1284,11 @@ class Workflow(Block):
     def is_valid(self, level: str = "error"):
         """ Tell if the workflow is valid by checking type compatibility of pipes inputs/outputs. """
         for pipe in self.pipes:
-            upstream = pipe.input_variable.type_
-            downstream = pipe.output_variable.type_
+            upstream = pipe.input_variable
+            downstream = pipe.output_variable
             if upstream.type_ != downstream.type_:
                 try:
-                    issubclass(upstream.type_.type_, downstream.type_)
+                    issubclass(upstream.type_, downstream.type_)
                 except TypeError as error:  # TODO: need of a real typing check
                     consistent = True
                     if not consistent:
-- 
2.43.0


From 7d8333fc5a44fdbc0baed465ad593d5f2de8cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 099/120] fix: values of a copied workflow state are copied

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 6be956c..c315add 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1698,7 +1698,7 @@ class WorkflowState(DessiaObject):
         for pipe, value in self.values.items():
             variable_indices = self.workflow.pipe_variable_indices(pipe)
             copied_pipe = workflow.pipe_from_variable_indices(*variable_indices)
-            values[copied_pipe] = value
+            values[copied_pipe] = deepcopy_value(value=value, memo=memo)
 
         activated_items = {}
         for item, value in self.activated_items.items():
-- 
2.43.0


From ed03d45dc16bd99734b7283b2a0136731e235cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 100/120] fix: workflow states do not share the input values
 they are given

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index c315add..fce1489 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1666,7 +1666,7 @@ class WorkflowState(DessiaObject):
         self.workflow = workflow
         if input_values is None:
             input_values = {}
-        self.input_values = input_values
+        self.input_values = dict(input_values)
 
         if activated_items is None:
             activated_items = {p: False for p in workflow.pipes}
-- 
2.43.0


From e82e581e6a0cdc10842e5f29eaeb9386dfcfbde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 101/120] fix: objects that cannot be hashed but know how to
 copy themselves can be copied

---
 dessia_common/utils/copy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index 861a599..80d0a0e 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -60,7 +60,11 @@ def deepcopy_value(value, memo):
         except TypeError:
             # Memo not handled
             copied_value = copy.deepcopy(value)
-        memo[value] = copied_value
+        try:
+            memo[value] = copied_value
+        except TypeError:
+            # Value is not hashable, memo cannot hold it
+            pass
         return copied_value
 
     if is_sequence(value):
-- 
2.43.0


From ece1d7f86874f982c4b24bc5ee7543bbf6fcd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:55 +0000
Subject: [PATCH 102/120] fix: evaluating export and archive blocks leaves the
 values they are given as they are

---
 dessia_common/workflow/blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 14cfc2c..2df8d6b 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1462,7 +1462,7 @@ class Export(Block):
 
     def evaluate(self, values, **kwargs):
         """ Generate to-be-exported stream from corresponding method. """
-        filename = f"{values.pop(self.inputs[-1])}.{self.extension}"
+        filename = f"{values[self.inputs[-1]]}.{self.extension}"
         if self.text:
             stream = StringFile(filename)
         else:
@@ -1532,7 +1532,7 @@ class Archive(Block):
     def evaluate(self, values, **kwargs):
         """ Generate archive stream for input streams. """
         name_input = self.inputs[-1]
-        archive_name = f"{values.pop(name_input)}.{self.extension}"
+        archive_name = f"{values[name_input]}.{self.extension}"
         archive = BinaryFile(archive_name)
         with ZipFile(archive, "w") as zip_archive:
             for input_ in self.inputs[:-1]:  # Filename is last block input
-- 
2.43.0


From 933673e2b82510b3de065f067001bf995fba787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:48 +0000
Subject: [PATCH 103/120] fix: a workflow run can be run again without a
 progress callback

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index fce1489..a9cfead 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2214,7 +2214,7 @@ class WorkflowRun(WorkflowState):
         """ Get display settings from given selector. """
         return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
 
-    def run_again(self, input_values, progress_callback=None, name=None):
+    def run_again(self, input_values, progress_callback=lambda x: None, name=None):
         """ Execute workflow again with given inputs. """
         return self.workflow.run(input_values=input_values, verbose=False,
                                  progress_callback=progress_callback, name=name)
-- 
2.43.0


From 7b68fbe4334e23f0b99a316e3079e3525bdb8665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:48 +0000
Subject: [PATCH 104/120] fix: optional arguments are deserialized whatever the
 order of their type and None

---
 dessia_common/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 60e790c..d3d3379 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -389,7 +389,8 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
     if origin is Union:
         # Check for Union false Positive (Default value = None)
         if len(args) == 2 and type(None) in args:
-            return deserialize_argument(type_=args[0], argument=argument)
+            type_ = args[0] if args[1] is type(None) else args[1]
+            return deserialize_argument(type_=type_, argument=argument)
 
         # Type union
         classes = list(args)
-- 
2.43.0


From aebd056ac09de2206315e2e2bfbd9586cfcd1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 105/120] fix: default values of tuple and untyped arguments
 are serialized in schemas

---
 dessia_common/schemas/core.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 373b339..75c07ee 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -558,9 +558,9 @@ class Property:
         return dict_
 
     def default_value(self):
-        """ Generic default. Yield user default if defined. """
+        """ Generic default. Yield serialized user default if defined. """
         if self.has_default_value:
-            return self.attribute.default_value
+            return serialize_default(self.attribute.default_value)
         return None
 
     def inject_reference(self, object_id: str):
@@ -1149,7 +1149,7 @@ class HeterogeneousSequence(TypingProperty):
         Return serialized user default if defined, else a right-sized Tuple filled with None values .
         """
         if self.has_default_value:
-            return self.attribute.default_value
+            return serialize_default(self.attribute.default_value)
         return tuple(s.default_value() for s in self.args_schemas)
 
     def check_list(self) -> CheckList:
@@ -1847,6 +1847,17 @@ def object_default(default_value: CoreDessiaObject = UNDEFINED, class_schema: Cl
     return None
 
 
+def serialize_default(default_value):
+    """ Serialize objects and measures of a user default, whatever their depth in tuples. """
+    if isinstance(default_value, tuple):
+        return tuple(serialize_default(v) for v in default_value)
+    if isinstance(default_value, CoreDessiaObject):
+        return default_value.to_dict(use_pointers=False)
+    if isinstance(default_value, Measure):
+        return default_value.to_dict()
+    return default_value
+
+
 def compute_typing_schema_serialization(serialized_typing: str, args_schemas: List[Property]) -> str:
     """ Build final typing serialized string. """
     return f"{serialized_typing}[{', '.join([s.serialized for s in args_schemas])}]"
-- 
2.43.0


From ed33885c05b49db24526dc4da195ce66779729e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:15 +0000
Subject: [PATCH 106/120] fix: selectors of views can be deserialized from
 their annotation

---
 dessia_common/schemas/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 75c07ee..d6ba6e4 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1764,7 +1764,8 @@ SERIALIZED_TO_SCHEMA_CLASS = {
     "Tuple": HeterogeneousSequence, "List": HomogeneousSequence, "Iterator": HomogeneousSequence,
     "Union": UnionProperty, "Dict": DynamicDict, "InstanceOf": InstanceOfProperty, "Subclass": SubclassProperty,
     "MethodType": MethodTypeProperty, "ClassMethodType": MethodTypeProperty, "Type": ClassProperty,
-    "AttributeType": AttributeTypeProperty, "ClassAttributeType": AttributeTypeProperty, "Literal": EnumProperty
+    "AttributeType": AttributeTypeProperty, "ClassAttributeType": AttributeTypeProperty, "Literal": EnumProperty,
+    "CadViewType": SelectorProperty, "PlotDataType": SelectorProperty, "MarkdownType": SelectorProperty
 }
 
 
-- 
2.43.0


From 150009ff2cbd3e25d3fc214147cf36cbbe7ffd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:06 +0000
Subject: [PATCH 107/120] fix: optional attributes are checked, and told as
 files or standalone, as what they wrap

---
 dessia_common/schemas/core.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index d6ba6e4..30392e7 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -712,6 +712,20 @@ class ProxyProperty(TypingProperty):
         """ Return a reference to its only argument. """
         return get_schema(annotation=self.annotation, attribute=self.attribute)
 
+    @cached_property
+    def is_file_related(self) -> bool:
+        """ Whether under-proxy-annotation is related to files. """
+        return self.schema.is_file_related
+
+    @property
+    def standalone_in_db(self) -> bool:
+        """ Whether under-proxy-annotation is standalone. """
+        return self.schema.standalone_in_db
+
+    def check_list(self) -> CheckList:
+        """ Check validity of under-proxy-annotation. """
+        return self.schema.check_list()
+
     def to_dict(self) -> Dict[str, Any]:
         """ Write Proxy as a Dict. """
         return self.schema.to_dict()
-- 
2.43.0


From 1c698e94ba5f9da28bedb8a05eeaf9e58a474eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:54 +0000
Subject: [PATCH 108/120] fix: blocks on classes that share only their name are
 not equivalent

---
 dessia_common/workflow/blocks.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 2df8d6b..a14834f 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -98,9 +98,7 @@ class InstantiateModel(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.model_class.__name__
-        other_classname = other.model_class.__name__
-        return super().equivalent(other) and classname == other_classname
+        return super().equivalent(other) and self.model_class is other.model_class
 
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'InstantiateModel':
@@ -162,9 +160,7 @@ class ClassMethod(Block):
 
     def equivalent(self, other: 'ClassMethod'):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.method_type.class_.__name__
-        other_classname = other.method_type.class_.__name__
-        same_class = classname == other_classname
+        same_class = self.method_type.class_ is other.method_type.class_
         same_method = self.method_type.name == other.method_type.name
         return super().equivalent(other) and same_class and same_method
 
@@ -238,9 +234,7 @@ class ModelMethod(Block):
 
     def equivalent(self, other: 'ModelMethod'):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.method_type.class_.__name__
-        other_classname = other.method_type.class_.__name__
-        same_model = classname == other_classname
+        same_model = self.method_type.class_ is other.method_type.class_
         same_method = self.method_type.name == other.method_type.name
         return super().equivalent(other) and same_model and same_method
 
@@ -1227,9 +1221,7 @@ class GetModelAttribute(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.attribute_type.class_.__name__
-        other_classname = other.attribute_type.class_.__name__
-        same_model = classname == other_classname
+        same_model = self.attribute_type.class_ is other.attribute_type.class_
         same_method = self.attribute_type.name == other.attribute_type.name
         return super().equivalent(other) and same_model and same_method
 
@@ -1278,7 +1270,8 @@ class SetModelAttribute(Block):
 
     def equivalent(self, other):
         """ Returns whether the block is equivalent to the other given or not. """
-        return super().equivalent(other) and self.attribute_type.name == other.attribute_type.name
+        same_model = self.attribute_type.class_ is other.attribute_type.class_
+        return super().equivalent(other) and same_model and self.attribute_type.name == other.attribute_type.name
 
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'SetModelAttribute':
-- 
2.43.0


From 907272d7500e5eda478d06f45bc8b871eda45a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:54 +0000
Subject: [PATCH 109/120] fix: workflows with different numbers of blocks or
 pipes are not equal

---
 dessia_common/workflow/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index a9cfead..60a84fa 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -491,6 +491,9 @@ class Workflow(Block):
         if hash(self) != hash(other_object) or not Block.equivalent(self, other_object):
             return False
 
+        if len(self.blocks) != len(other_object.blocks):
+            return False
+
         # TODO: temp , reuse graph to handle block order!!!!
         for block1, block2 in zip(self.blocks, other_object.blocks):
             if block1.__class__ is not block2.__class__ or not block1.equivalent(block2):
@@ -526,6 +529,8 @@ class Workflow(Block):
             self.detached_variables.insert(0, NAME_VARIABLE)
 
     def _equivalent_pipes(self, other_wf) -> bool:
+        if len(self.pipes) != len(other_wf.pipes):
+            return False
         pipes = []
         other_pipes = []
         for pipe, other_pipe in zip(self.pipes, other_wf.pipes):
-- 
2.43.0


From a36078c93f982a6794a11ee6379dcfb784cc6d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:23 +0000
Subject: [PATCH 110/120] fix: displays of a clustered data set of data sets
 raised TypeError

---
 dessia_common/datatools/cluster.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index 67c140e..c7c1f0d 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -13,6 +13,7 @@ except ImportError:
     pass
 from dessia_common.exports import XLSXWriter
 from dessia_common.core import DessiaObject, DessiaFilter
+from dessia_common.decorators import plot_data_view
 from dessia_common.datatools.dataset import Dataset
 
 
@@ -280,6 +281,32 @@ class ClusteredDataset(Dataset):
             real_centroids.append(hlist[distances.index(min(distances))])
         return real_centroids
 
+    def _is_split(self):
+        return bool(self.dessia_objects) and isinstance(self.dessia_objects[0], Dataset)
+
+    def _plot_merged(self, plot_method, reference_path: str):
+        """ Plot the objects of all Datasets in one, each one referring to its place in its Dataset. """
+        plot = plot_method(self._merge_sublists(), reference_path=reference_path)
+        paths = [f"{reference_path}/dessia_objects/{i}/dessia_objects/{j}"
+                 for i, sublist in enumerate(self.dessia_objects) for j in range(len(sublist))]
+        for sample, path in zip(plot.elements, paths):
+            sample.reference_path = path
+        return plot
+
+    @plot_data_view(selector='DataSet scatter matrix')
+    def plot_scatter_matrix(self, reference_path: str = "#", **kwargs):
+        """ Plot a scatter matrix for attributes in common_attributes, merging dessia_objects if they are Datasets. """
+        if self._is_split():
+            return self._plot_merged(Dataset.plot_scatter_matrix, reference_path)
+        return Dataset.plot_scatter_matrix(self, reference_path=reference_path, **kwargs)
+
+    @plot_data_view(selector='DataSet parallel plot')
+    def plot_parallel_plot(self, reference_path: str = "#", **kwargs):
+        """ Plot a parallel plot for attributes in common_attributes, merging dessia_objects if they are Datasets. """
+        if self._is_split():
+            return self._plot_merged(Dataset.plot_parallel_plot, reference_path)
+        return Dataset.plot_parallel_plot(self, reference_path=reference_path, **kwargs)
+
     def _merge_sublists(self):
         merged_hlists = self.dessia_objects[0][:]
         merged_labels = [self.labels[0]] * len(merged_hlists)
-- 
2.43.0


From dcdc0cea6d982486f0e5e9b550550f2549fad48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:14 +0000
Subject: [PATCH 111/120] fix: inputs of sub-workflows which are unlocked stay
 unlocked once copied or reloaded

---
 dessia_common/workflow/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 60a84fa..f598f73 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -126,6 +126,8 @@ class Variable(DessiaObject):
         locked = dict_.get("locked")
         if locked:
             self.lock()
+        elif locked is not None:
+            self.unlock()
 
     @property
     def has_default_value(self):
@@ -558,6 +560,8 @@ class Workflow(Block):
                     copied_variable.default_value = deepcopy_value(variable.default_value, memo=memo)
                 else:
                     copied_variable.default_value = UNDEFINED
+                if not variable.locked:
+                    copied_variable.unlock()
         output_adress = self.variable_indices(self.output)
         if output_adress is None:
             output = None
-- 
2.43.0


From 7fda63928911c37854963d87fa0dcd1efafee212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 112/120] fix: default values made of lists of objects are
 serialized in schemas

---
 dessia_common/schemas/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 30392e7..f8519dd 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1866,6 +1866,8 @@ def serialize_default(default_value):
     """ Serialize objects and measures of a user default, whatever their depth in tuples. """
     if isinstance(default_value, tuple):
         return tuple(serialize_default(v) for v in default_value)
+    if isinstance(default_value, list):
+        return [serialize_default(v) for v in default_value]
     if isinstance(default_value, CoreDessiaObject):
         return default_value.to_dict(use_pointers=False)
     if isinstance(default_value, Measure):
-- 
2.43.0


From bbf54d4e3f32b534fd2eb0f16f0b65eff407ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 113/120] fix: a copied workflow does not share the values of
 its locked inputs

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index f598f73..b2c7453 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -586,7 +586,7 @@ class Workflow(Block):
         # Locking variables
         for i, input_ in enumerate(self.inputs):
             if input_.locked:
-                workflow.inputs[i].lock(input_.default_value)
+                workflow.inputs[i].lock(deepcopy_value(input_.default_value, memo=memo))
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
-- 
2.43.0


From 50142c0fc548bd1690122585939018a912386c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 114/120] fix: keys with slashes broke the references of
 objects under them

---
 dessia_common/serialization.py | 14 +++++++-------
 dessia_common/utils/helpers.py | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index d3d3379..64569f6 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -16,7 +16,7 @@ import dessia_common.errors as dc_err
 from dessia_common.files import StringFile, BinaryFile
 import dessia_common.utils.types as dcty
 from dessia_common.utils.helpers import (full_classname, get_python_class_from_class_name, is_sequence,
-                                         get_in_object_from_path, set_in_object_from_path)
+                                         get_in_object_from_path, set_in_object_from_path, path_segment)
 from dessia_common.abstract import CoreDessiaObject
 from dessia_common.typings import InstanceOf, JsonSerializable
 from dessia_common.measures import Measure
@@ -218,17 +218,17 @@ def serialize_dict_with_pointers(dict_, memo, path, id_method, id_memo):
             other_keys.append(key)
 
     for key in other_keys:
-        value_path = f'{path}/{key}'
+        value_path = f'{path}/{path_segment(key)}'
         serialized_dict[key], memo = serialize_with_pointers(dict_[key], memo=memo, path=value_path,
                                                              id_memo=id_memo)
     # Handle sequence & dictionaries afterwards
     for key in seq_attrs_keys:
-        value_path = f'{path}/{key}'
+        value_path = f'{path}/{path_segment(key)}'
         serialized_dict[key], memo = serialize_sequence_with_pointers(dict_[key], memo=memo, path=value_path,
                                                                       id_method=id_method, id_memo=id_memo)
 
     for key in dict_attrs_keys:
-        value_path = f'{path}/{key}'
+        value_path = f'{path}/{path_segment(key)}'
         serialized_dict[key], memo = serialize_dict_with_pointers(dict_[key], memo=memo, path=value_path,
                                                                   id_method=id_method, id_memo=id_memo)
 
@@ -347,7 +347,7 @@ def dict_to_object(dict_, class_=None, force_generic: bool = False, global_dict=
         else:
             annotation = None
 
-        key_path = f'{path}/{key}'
+        key_path = f'{path}/{path_segment(key)}'
 
         if key_path in pointers_memo:
             subobject = pointers_memo[key_path]
@@ -539,7 +539,7 @@ def find_references_dict(dict_, path):
     references = []
     for key, value in dict_.items():
         if not dcty.isinstance_base_types(value):
-            path_value = f'{path}/{key}'
+            path_value = f'{path}/{path_segment(key)}'
             refs_value = find_references(value, path=path_value)
             references.extend(refs_value)
     return references
@@ -736,7 +736,7 @@ def pointer_graph_elements_dict(dict_, path='#'):
     nodes = []
     for key, value in dict_.items():
         if not dcty.isinstance_base_types(value):
-            path_value = f'{path}/{key}'
+            path_value = f'{path}/{path_segment(key)}'
             value_nodes, value_edges = pointer_graph_elements(value, path=path_value)
             # if value_nodes or value_edges:
             nodes.append(path_value)
diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index 80a7581..4d51d35 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -107,6 +107,16 @@ def is_tuple(obj) -> bool:
     return obj.__class__ == tuple
 
 
+def path_segment(key) -> str:
+    """ Write given key as one segment of a path: slashes are escaped, as in JSON pointers. """
+    return str(key).replace('~', '~0').replace('/', '~1')
+
+
+def key_from_segment(segment: str) -> str:
+    """ Give the key that the segment of a path stands for. """
+    return segment.replace('~1', '/').replace('~0', '~')
+
+
 def extract_segment_from_object(object_, segment: str):
     """ Try all ways to get an attribute (segment) from an object that can of numerous types. """
     if is_sequence(object_):
@@ -118,6 +128,9 @@ def extract_segment_from_object(object_, segment: str):
             raise ExtractionError(message_error) from err
 
     if isinstance(object_, dict):
+        key = key_from_segment(segment)
+        if key in object_:
+            return object_[key]
         if segment in object_:
             return object_[segment]
 
@@ -191,6 +204,8 @@ def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
         if last_segment not in last_object and last_segment.isdigit() and int(last_segment) in last_object:
             # Keys may be integers, as when getting a value
             last_segment = int(last_segment)
+        elif key_from_segment(last_segment) in last_object:
+            last_segment = key_from_segment(last_segment)
         last_object[last_segment] = value
     else:
         setattr(last_object, last_segment, value)
-- 
2.43.0


From 698a3c961eeb5387eeee41aaf7e027457191fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 115/120] fix: diffs told paths that lead nowhere for keys with
 slashes

---
 dessia_common/utils/diff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index ba6225e..cb2ed0b 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -7,7 +7,7 @@ from typing import List
 
 from dessia_common import FLOAT_TOLERANCE
 from dessia_common.utils.types import isinstance_base_types
-from dessia_common.utils.helpers import is_sequence
+from dessia_common.utils.helpers import is_sequence, path_segment
 
 
 class DifferentValues:
@@ -144,7 +144,7 @@ def dict_diff(dict1, dict2, path='#'):
     diff_object = Diff([], [], [])
 
     for key, value in dict1.items():
-        path_key = f'{path}/{key}'
+        path_key = f'{path}/{path_segment(key)}'
         if key not in dict2:
             diff_object.missing_attributes.append(MissingAttribute(path=path_key, missing_in_first_object=False))
         else:
@@ -152,7 +152,8 @@ def dict_diff(dict1, dict2, path='#'):
             diff_object += diff_key
     for key in dict2:
         if key not in dict1:
-            diff_object.missing_attributes.append(MissingAttribute(path=f'{path}/{key}', missing_in_first_object=True))
+            diff_object.missing_attributes.append(MissingAttribute(path=f'{path}/{path_segment(key)}',
+                                                                   missing_in_first_object=True))
     return diff_object
 
 
-- 
2.43.0


From 241976db32dcce6182dc4e9686c887484dc2267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 116/120] fix: the text of a workflow state could not be
 written

---
 dessia_common/workflow/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index b2c7453..8075839 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1652,8 +1652,12 @@ class ExecutionInfo(DessiaObject):
     def to_markdown(self, **kwargs):
         """ Render to markdown. Require blocks for clean order. """
         table_content = []
+        after_block_memory_usage = dict(self.after_block_memory_usage)
         for block, mem_start in dict(self.before_block_memory_usage).items():
-            mem_end = dict(self.after_block_memory_usage)[block]
+            if block not in after_block_memory_usage:  # Its evaluation failed
+                table_content.append((block.name, f"{humanize.naturalsize(mem_start)}", None, None))
+                continue
+            mem_end = after_block_memory_usage[block]
             mem_diff = mem_end - mem_start
             table_content.append((block.name, f"{humanize.naturalsize(mem_start)}", f"{humanize.naturalsize(mem_end)}",
                                   f"{humanize.naturalsize(mem_diff)}"))
@@ -2153,7 +2157,7 @@ class WorkflowState(DessiaObject):
     def to_markdown(self, **kwargs) -> str:
         """ Render to markdown. """
         template = dessia_common.templates.workflow_state_markdown_template
-        execution_info = self.execution_info.to_markdown(self.workflow.blocks)
+        execution_info = self.execution_info.to_markdown(blocks=self.workflow.blocks)
         return template.substitute(name=self.name, class_=self.__class__.__name__, progress=100 * self.progress,
                                    workflow_name=self.workflow.name, execution_info=execution_info)
 
-- 
2.43.0


From ced17fe050b13dde732868c47f48a72513b25fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 117/120] fix: the text of a run whose output is a number, a
 text or nothing could not be written

---
 dessia_common/workflow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 8075839..6ec87aa 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2290,6 +2290,8 @@ class WorkflowRun(WorkflowState):
 
         if is_sequence(self.output_value):
             output_table = f"Output is a sequence of {len(self.output_value)} elements"
+        elif not hasattr(self.output_value, "__dict__"):
+            output_table = f"Output is {self.output_value}"
         else:
             output_table = writer.object_table(self.output_value)
 
-- 
2.43.0


From 6111001ac7ec40f205da09c5c8cac302fae4ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 118/120] fix: the displays of a workflow state could not be
 made

---
 dessia_common/workflow/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 6ec87aa..be048b7 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1918,6 +1918,10 @@ class WorkflowState(DessiaObject):
         display_settings.extend(self.workflow.blocks_display_settings)
         return display_settings
 
+    def _display_settings_from_selector(self, selector: str):
+        """ Get display settings from given selector. """
+        return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
+
     def block_display(self, block_index: int, reference_path: str = "#"):
         """ Compute the display of associated block to use integrate it in the workflow run displays. """
         self.activate_inputs()
@@ -2223,10 +2227,6 @@ class WorkflowRun(WorkflowState):
         documentation.load_by_default = not any(displays_by_default)
         return [documentation] + block_settings
 
-    def _display_settings_from_selector(self, selector: str):
-        """ Get display settings from given selector. """
-        return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
-
     def run_again(self, input_values, progress_callback=lambda x: None, name=None):
         """ Execute workflow again with given inputs. """
         return self.workflow.run(input_values=input_values, verbose=False,
-- 
2.43.0


From 257d29312ac4b17222532dca4375fe5900ce6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 119/120] fix: inputs of inner workflows lost the documentation
 of their arguments

---
 dessia_common/workflow/blocks.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index a14834f..830ef1f 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -421,10 +421,11 @@ class WorkflowBlock(Block):
         """ Recursively get docstring of sub workflow. """
         workflow_docstrings = self.workflow._docstring()
         docstring = {}
-        for block_docstring in workflow_docstrings:
-            for input_ in self.workflow.inputs:
-                if block_docstring and input_ in block_docstring:
-                    docstring[input_] = block_docstring[input_]
+        for input_, workflow_input in zip(self.inputs, self.workflow.inputs):
+            docstring[input_] = EMPTY_PARSED_ATTRIBUTE
+            for block_docstring in workflow_docstrings:
+                if block_docstring and workflow_input in block_docstring:
+                    docstring[input_] = block_docstring[workflow_input]
         return docstring
 
     def _to_script(self, prefix: str) -> ToScriptElement:
@@ -504,7 +505,7 @@ class ForEach(Block):
         """ Recursively get docstring of sub-workflow. """
         wb_docstring = self.workflow_block._docstring()
         block_docstring = {}
-        for input_, workflow_input in zip(self.inputs, self.workflow_block.workflow.inputs):
+        for input_, workflow_input in zip(self.inputs, self.workflow_block.inputs):
             block_docstring[input_] = wb_docstring[workflow_input]
         return block_docstring
 
-- 
2.43.0


From cf4082777279ba95f269815a732485ac177e284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 120/120] fix: states and runs with files were not equal once
 reloaded

---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index be048b7..c66e64f 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1733,7 +1733,9 @@ class WorkflowState(DessiaObject):
     def _data_hash(self):
         workflow = hash(self.workflow)
         output = choose_hash(self.output_value)
-        input_values = sum(i * choose_hash(v) for (i, v) in self.input_values.items())
+        # Files are not serialized, states that only differ by them are equal
+        input_values = sum(i * choose_hash(v) for (i, v) in self.input_values.items()
+                           if not self.workflow.inputs[i].is_file_related)
         return (workflow + output + input_values) % 1000000000
 
     def _data_eq(self, other_object: 'WorkflowState'):
-- 
2.43.0

