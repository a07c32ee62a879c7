From eb73c3d03c18a1ba3d42fac6409115f46781bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 01/66] fix: dumped strings with quotes/control characters and
 tiny floats could not be loaded again

---
 hyperstate/serde.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 06fcacf..3972d89 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -2,6 +2,7 @@ from abc import ABC, abstractmethod
 from collections import namedtuple
 from enum import Enum, EnumMeta
 from os import name
+import re
 from pathlib import Path
 from typing import (
     Iterable,
@@ -402,7 +403,31 @@ def dumps(
     if serializers is None:
         serializers = []
     state_dict = asdict(obj, named_tuples=True, serializers=serializers)
-    return pyron.to_string(state_dict)
+    return to_ron(state_dict)
+
+
+_RON_TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|(\d+\.\d+)\.0', re.DOTALL)
+_RON_ESCAPE = re.compile(r"\\(?:u\{([0-9a-f]+)\}|(.))", re.DOTALL)
+
+
+def to_ron(value: Any) -> str:
+    """
+    Serializes `value` to RON.
+    `pyron.to_string` emits the escapes `\\'` and `\\u{..}` and (for very small floats)
+    literals ending in a second `.0`, none of which `pyron.loads` is able to parse.
+    """
+
+    def unescape(m: typing.Match[str]) -> str:
+        if m.group(1) is not None:
+            return chr(int(m.group(1), 16))
+        return "'" if m.group(2) == "'" else m.group(0)
+
+    def fix_token(m: typing.Match[str]) -> str:
+        if m.group(1) is not None:
+            return m.group(1)
+        return _RON_ESCAPE.sub(unescape, m.group(0))
+
+    return _RON_TOKEN.sub(fix_token, pyron.to_string(value))
 
 
 def is_optional(clz: Type[Any]) -> bool:
-- 
2.43.0


From 57a130fa7264598c9479be2d0e6e25ada390cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 02/66] fix: enums were dumped by name but loaded by value, so
 they did not round-trip

---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 3972d89..ae9e299 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -123,7 +123,7 @@ def asdict(
             for i, v in enumerate(value)
         )
     elif isinstance(value, Enum):
-        return value.name
+        return value.value
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From 22b4bf180bfeff85a6e50c9928825dd22a447e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:04 +0000
Subject: [PATCH 03/66] fix: Literal types with non-string values could not be
 loaded

---
 hyperstate/serde.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index ae9e299..415efe1 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -216,15 +216,12 @@ def from_dict(
         )
 
     elif (
-        hasattr(clz, "__args__")
-        and len(clz.__args__) == 1  # type: ignore
-        and clz == List[clz.__args__]  # type: ignore
+        typing.get_origin(clz) == list
         and isinstance(value, list)
     ):
         return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
     elif (
-        hasattr(clz, "__args__")
-        and clz == Tuple[clz.__args__]  # type: ignore
+        typing.get_origin(clz) == tuple
         and isinstance(value, tuple)
     ):
         return tuple(
@@ -232,9 +229,7 @@ def from_dict(
             for i, v in enumerate(value)
         )
     elif (
-        hasattr(clz, "__args__")
-        and len(clz.__args__) == 2  # type: ignore
-        and clz == Dict[clz.__args__]  # type: ignore
+        typing.get_origin(clz) == dict
         and isinstance(value, dict)
     ):
         return {
-- 
2.43.0


From afc16381886fdfac3506104a22346fd2cabfcc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 04/66] fix: tuples of the wrong length were accepted or
 crashed with an IndexError

---
 hyperstate/serde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 415efe1..175c6b8 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -224,6 +224,10 @@ def from_dict(
         typing.get_origin(clz) == tuple
         and isinstance(value, tuple)
     ):
+        if len(value) != len(clz.__args__):  # type: ignore
+            raise DeserializeValueError(
+                f"Expected {fpath} to have {len(clz.__args__)} elements, got {value}"  # type: ignore
+            )
         return tuple(
             from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]")  # type: ignore
             for i, v in enumerate(value)
-- 
2.43.0


From 8e3cc16eae147d147a448390524264abe97f91bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 05/66] fix: dict keys were not checked against the declared
 key type

---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 175c6b8..8c36498 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -237,7 +237,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
+            from_dict(clz.__args__[0], k, None, fpath): from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
-- 
2.43.0


From fd2fcd9a62828fac4e12f6b52eb59a2c135681a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 06/66] fix: ignore_extra_fields was not applied to nested
 sections and containers

---
 hyperstate/serde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 8c36498..46035c1 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -219,7 +219,7 @@ def from_dict(
         typing.get_origin(clz) == list
         and isinstance(value, list)
     ):
-        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
+        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         typing.get_origin(clz) == tuple
         and isinstance(value, tuple)
@@ -229,7 +229,7 @@ def from_dict(
                 f"Expected {fpath} to have {len(clz.__args__)} elements, got {value}"  # type: ignore
             )
         return tuple(
-            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]")  # type: ignore
+            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
         )
     elif (
@@ -237,7 +237,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            from_dict(clz.__args__[0], k, None, fpath): from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
+            from_dict(clz.__args__[0], k, None, fpath): from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -274,6 +274,7 @@ def from_dict(
                 value=v,
                 deserializers=deserializers,
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
+                ignore_extra_fields=ignore_extra_fields,
             )
         _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
         try:
-- 
2.43.0


From 74f23fa06269ea605d432000b1e0c243518763a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 07/66] fix: values of union types other than dataclasses could
 not be loaded

---
 hyperstate/serde.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 46035c1..96ebc02 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -174,6 +174,8 @@ def from_dict(
 
     if inspect.isclass(clz) and isinstance(value, clz):
         return value
+    elif typing.get_origin(clz) == typing.Union and type(value) in clz.__args__:  # type: ignore
+        return value  # type: ignore
     elif (
         (clz == str or ustr) and isnamedtupleinstance(value) and len(value._fields) == 0
     ):
@@ -194,19 +196,13 @@ def from_dict(
         if isinstance(value, dict):
             if "!__name__" in value:
                 for arg in clz.__args__:  # type: ignore
-                    if value["!__name__"] == arg.__name__:
+                    if value["!__name__"] == getattr(arg, "__name__", None):
                         return from_dict(arg, value, deserializers, fpath, ignore_extra_fields)  # type: ignore
-            for arg in clz.__args__:  # type: ignore
-                if hasattr(arg, "__args__") and arg.get_origin() == typing.Dict:
-                    return from_dict(  # type: ignore
-                        arg, value, deserializers, fpath, ignore_extra_fields
-                    )
-        elif isinstance(value, list):
-            for arg in clz.__args__:  # type: ignore
-                if hasattr(arg, "__args__") and arg.get_origin() == typing.List:
-                    return from_dict(  # type: ignore
-                        arg, value, deserializers, fpath, ignore_extra_fields
-                    )
+        for arg in clz.__args__:  # type: ignore
+            if typing.get_origin(arg) == type(value):
+                return from_dict(  # type: ignore
+                    arg, value, deserializers, fpath, ignore_extra_fields
+                )
         # TODO: Union with other types (Literal, ...)
         if isinstance(value, dict) and "!__name__" in value:
             fields = {k: v for k, v in value.items() if k != "!__name__"}
-- 
2.43.0


From 48db5b53bb41be93f1802e5e27909d778a50c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:29 +0000
Subject: [PATCH 08/66] fix: integers given as text lost precision above 2**53

---
 hyperstate/serde.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 96ebc02..1cec1d3 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -187,7 +187,10 @@ def from_dict(
     elif (clz == float or ufloat) and isinstance(value, str):
         return float(value)  # type: ignore
     elif (clz == int or uint) and isinstance(value, str):
-        f = float(value)
+        try:
+            return int(value)  # type: ignore
+        except ValueError:
+            f = float(value)
         if int(f) == f:
             return int(f)  # type: ignore
         else:
-- 
2.43.0


From fc797ac4e24163c1944eca48300bc7e2e718b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 09/66] fix: configs with a union field that allows None could
 not be loaded with overrides or a StateManager

materialize_type failed (and dropped into the debugger) on Union[A, B, None].
---
 hyperstate/schema/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4b97aaa..ac00e30 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -252,7 +252,10 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif is_optional(clz):
         return Option(materialize_type(clz.__args__[0]))
     elif hasattr(clz, "__origin__") and clz.__origin__ == typing.Union:
-        return Union([materialize_type(t) for t in clz.__args__])
+        args = [arg for arg in clz.__args__ if arg is not type(None)]
+        if len(args) < len(clz.__args__):
+            return Option(materialize_type(typing.Union[tuple(args)]))
+        return Union([materialize_type(t) for t in args])
     elif is_dataclass(clz):
         fields = {}
         field_docs = _find_all_field_docs(clz)
@@ -290,7 +293,6 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif typing.get_origin(clz) == typing.Literal:
         return Literal(list(typing.get_args(clz)))
     else:
-        breakpoint()
         raise ValueError(f"Unsupported type: {clz}")
 
 
-- 
2.43.0


From e6cdfe842cd5b7d8c9e9235d40c201cbc436c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:15 +0000
Subject: [PATCH 10/66] fix: RejectValues removed allowed values and failed
 when applied to a schema

The rule deleted the field it checked from every config it accepted, and
apply_to_schema looked for the literal type on the schema instead of the field.
---
 hyperstate/schema/rewrite_rule.py | 33 +++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 43f3d65..fb04850 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -137,7 +137,7 @@ class CheckValue(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         value, present = _get(state_dict, self.field)
-        if present and value not in self.allowed_values:
+        if present and value not in list(self.allowed_values):
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}. Allowed values: [{', '.join(v.__repr__() for v in self.allowed_values)}]"
             )
@@ -159,8 +159,8 @@ class RejectValues(RewriteRule):
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _remove(state_dict, self.field)
-        if present and value in self.disallowed_values:
+        value, present = _get(state_dict, self.field)
+        if present and value in list(self.disallowed_values):
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
             )
@@ -169,18 +169,22 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(schema, types.Literal)
+        literal = types._unwrap_container_type(field.type)
+        assert isinstance(literal, types.Literal)
         _insert_schema(
             schema,
             self.field,
             replace(
                 field,
-                type=types.Literal(
-                    [
-                        v
-                        for v in schema.allowed_values
-                        if v not in self.disallowed_values
-                    ]
+                type=_replace_inner_type(
+                    field.type,
+                    types.Literal(
+                        [
+                            v
+                            for v in literal.allowed_values
+                            if v not in self.disallowed_values
+                        ]
+                    ),
                 ),
             ),
         )
@@ -233,6 +237,15 @@ def _insert(
     state_dict[path[-1]] = value
 
 
+def _replace_inner_type(type: types.Type, inner: types.Type) -> types.Type:
+    """Replaces the type wrapped by any number of `Option`/`List` types."""
+    if isinstance(type, types.List):
+        return types.List(_replace_inner_type(type.inner, inner))
+    if isinstance(type, types.Option):
+        return types.Option(_replace_inner_type(type.type, inner))
+    return inner
+
+
 def _remove_schema(schema: types.Type, path: Sequence[str]) -> Optional[types.Field]:
     assert len(path) > 0
     for field in path[:-1]:
-- 
2.43.0


From dbb0dfdc35e8ed5fff4a4fc649ae6618d379a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 11/66] fix: rewrite rules failed or lost values when the path
 leads through a null or plain value

CheckValue crashed on a null section, every rule crashed on a section that is
not a struct, and RenameField dropped the value when its target was null.
---
 hyperstate/schema/rewrite_rule.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index fb04850..181ad2c 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -26,8 +26,8 @@ class RenameField(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
         value, ok = _remove(state_dict, self.old_field)
-        if ok:
-            _insert(state_dict, self.new_field, value)
+        if ok and not _insert(state_dict, self.new_field, value):
+            _insert(state_dict, self.old_field, value)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -193,11 +193,9 @@ class RejectValues(RewriteRule):
 def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     assert len(path) > 0
     for field in path[:-1]:
-        if field not in state_dict:
+        if not isinstance(state_dict, dict) or field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-        if state_dict is None:
-            return None, False
     if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     value = state_dict[path[-1]]
@@ -208,10 +206,10 @@ def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]
 def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     assert len(path) > 0
     for field in path[:-1]:
-        if field not in state_dict:
+        if not isinstance(state_dict, dict) or field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-    if path[-1] not in state_dict:
+    if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     return state_dict[path[-1]], True
 
@@ -221,20 +219,21 @@ def _insert(
     path: Sequence[str],
     value: Any,
     create_new: bool = True,
-) -> None:
+) -> bool:
     assert len(path) > 0
     for field in path[:-1]:
-        if isinstance(state_dict, dict) and field not in state_dict:
+        if field not in state_dict or (create_new and state_dict[field] is None):
             if create_new:
                 state_dict[field] = {}
             else:
                 state_dict[field] = {WEAK_REF: True}
         state_dict = state_dict[field]
         if not isinstance(state_dict, dict):
-            return
+            return False
         if create_new and WEAK_REF in state_dict:
             del state_dict[WEAK_REF]
     state_dict[path[-1]] = value
+    return True
 
 
 def _replace_inner_type(type: types.Type, inner: types.Type) -> types.Type:
-- 
2.43.0


From 5b98f4d9c9d282adfcd333b352e5c53801a723a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:57 +0000
Subject: [PATCH 12/66] fix: recorded defaults of fields in omitted sections
 were lost

ChangeDefault and AddDefault on a field of a section that an old config leaves
out altogether had no effect (or failed), later rules turned the placeholder
into a present section, and inserted defaults were shared between loads.
---
 hyperstate/schema/rewrite_rule.py | 52 ++++++++++++++++++++++---------
 hyperstate/serde.py               | 22 ++++++-------
 2 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 181ad2c..cf49637 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import deepcopy
 from dataclasses import dataclass, replace
 from typing import List, Optional, Sequence, Set, Tuple, Dict, Any, Callable
 from venv import create
@@ -25,8 +26,13 @@ class RenameField(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
+        weak = _is_weak(state_dict, self.old_field)
         value, ok = _remove(state_dict, self.old_field)
-        if ok and not _insert(state_dict, self.new_field, value):
+        if (
+            ok
+            and not _insert(state_dict, self.new_field, value, create_new=not weak)
+            and not weak
+        ):
             _insert(state_dict, self.old_field, value)
         return state_dict
 
@@ -56,10 +62,10 @@ class MapFieldValue(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         path = self.field
-        value, present = _remove(state_dict, path)
-        if present:
+        value, present = _get(state_dict, path)
+        if present and not _is_weak_section(value):
             new_value = self.map_fn(value)
-            _insert(state_dict, path, new_value)
+            _insert(state_dict, path, new_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -90,11 +96,11 @@ class ChangeDefault(RewriteRule):
     new_default: Any
 
     def apply(self, state_dict: Any) -> Any:
-        existing_value, ok = _remove(state_dict, self.field)
-        if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
-            _insert(state_dict, self.field, self.old_default, create_new=False)
-        else:
-            _insert(state_dict, self.field, existing_value)
+        existing_value, ok = _get(state_dict, self.field)
+        if not ok or _is_weak_section(existing_value):
+            _insert(
+                state_dict, self.field, deepcopy(self.old_default), create_new=False
+            )
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -110,10 +116,9 @@ class AddDefault(RewriteRule):
     default: Any
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _remove(state_dict, self.field)
-        _insert(
-            state_dict, self.field, value if present else self.default, create_new=False
-        )
+        value, present = _get(state_dict, self.field)
+        if not present or _is_weak_section(value):
+            _insert(state_dict, self.field, deepcopy(self.default), create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -137,7 +142,11 @@ class CheckValue(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         value, present = _get(state_dict, self.field)
-        if present and value not in list(self.allowed_values):
+        if (
+            present
+            and not _is_weak_section(value)
+            and value not in list(self.allowed_values)
+        ):
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}. Allowed values: [{', '.join(v.__repr__() for v in self.allowed_values)}]"
             )
@@ -203,6 +212,21 @@ def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]
     return value, True
 
 
+def _is_weak_section(value: Any) -> bool:
+    return isinstance(value, dict) and WEAK_REF in value
+
+
+def _is_weak(state_dict: Any, path: Sequence[str]) -> bool:
+    """Whether `path` is (part of) a section that only exists to hold defaults."""
+    for field in path:
+        if not isinstance(state_dict, dict) or field not in state_dict:
+            return False
+        state_dict = state_dict[field]
+        if _is_weak_section(state_dict):
+            return True
+    return False
+
+
 def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     assert len(path) > 0
     for field in path[:-1]:
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 1cec1d3..1da32a0 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -318,27 +318,27 @@ def _try_create_defaults(
     still_missing = []
     for _field_name in remaining_fields:
         field = cls.__dataclass_fields__.get(_field_name)
-        if field.default is MISSING and field.default_factory is MISSING:
+        weak_ref = weak_refs.get(_field_name)
+        is_section = isinstance(weak_ref, dict) and WEAK_REF in weak_ref
+        if _field_name in weak_refs and not is_section:
+            kwargs[field.name] = from_dict(
+                field.type,
+                weak_ref,
+                fpath=f"{fpath}.{_field_name}" if fpath else _field_name,
+            )
+        elif field.default is MISSING and field.default_factory is MISSING:
             if is_dataclass(field.type):
-                _missing_defaults = [
-                    f.name
-                    for f in field.type.__dataclass_fields__.values()
-                    if f.default is MISSING and f.default_factory is MISSING
-                ]
                 _kwargs: Dict[str, Any] = {}
-                _weak_refs = weak_refs.get(_field_name, {})
                 _try_create_defaults(
                     field.type,
                     _kwargs,
-                    _missing_defaults,
+                    field.type.__dataclass_fields__.keys(),
                     f"{fpath}.{_field_name}" if fpath else _field_name,
-                    weak_refs=_weak_refs,
+                    weak_refs=weak_ref if is_section else {},  # type: ignore
                 )
                 kwargs[field.name] = field.type(**_kwargs)
             else:
                 still_missing.append(_field_name)
-        elif _field_name in weak_refs and WEAK_REF not in weak_refs[_field_name]:
-            kwargs[field.name] = weak_refs[_field_name]
 
     if len(still_missing) > 0:
         prefix = f"{fpath}." if fpath else ""
-- 
2.43.0


From c23605fe44d5a3e293431905da01de3b4cf07eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 13/66] fix: the value returned by an upgrade rule was
 discarded

---
 hyperstate/schema/versioned.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index aec72e4..6aad800 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -77,6 +77,7 @@ class VersionedDeserializer(Deserializer):
                     )
             else:
                 value = clz._apply_upgrades(state_dict=value, version=version)
+                return value, True, False
         return None, False, False
 
 
-- 
2.43.0


From dee2693165012c8528a3ea4a199a3185e1fb211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 14/66] fix: overrides were applied before upgrade rules and
 reset the other fields of omitted sections

Overrides name the current fields, but the rules of older versions renamed,
mapped or deleted them again. Overriding a field of an omitted section ignored
the section's own default value, and failed for versioned sections.
---
 hyperstate/hyperstate.py       | 87 +++++++++++++++++++++++++++-------
 hyperstate/schema/versioned.py |  4 +-
 2 files changed, 74 insertions(+), 17 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1bf6602..b85debf 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -17,8 +17,10 @@ from typing import (
     Tuple,
     Union,
 )
-from dataclasses import MISSING, dataclass
+from copy import deepcopy
+from dataclasses import MISSING, dataclass, field as dataclass_field, is_dataclass
 import uuid
+from hyperstate.schema.rewrite_rule import WEAK_REF, _is_weak_section
 from hyperstate.schema.types import Struct, materialize_type
 import hyperstate.schema.types as t
 
@@ -267,13 +269,14 @@ def _typed_load(
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
 ) -> Tuple[T, Dict[str, Any]]:
-    if overrides is not None:
-        deserializers: List[Deserializer] = [OverridesDeserializer(overrides)]
-    else:
-        deserializers = []
     schedules = ScheduleDeserializer()
-    deserializers.append(schedules)
-    deserializers.append(VersionedDeserializer(allow_missing_version))
+    deserializers: List[Deserializer] = [
+        schedules,
+        VersionedDeserializer(allow_missing_version),
+    ]
+    if overrides is not None:
+        # Overrides name the current fields, so they apply to upgraded sections
+        deserializers.append(OverridesDeserializer(overrides))
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
@@ -352,6 +355,8 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
 class OverridesDeserializer(Deserializer):
     overrides: List[str]
     applied_overrides: bool = False
+    # Overrides which have yet to be applied, by the path of the section they apply to
+    pending: Dict[str, List[Tuple[List[str], Any]]] = dataclass_field(default_factory=dict)
 
     def deserialize(
         self,
@@ -360,7 +365,7 @@ class OverridesDeserializer(Deserializer):
         path: str,
     ) -> Tuple[Optional[T], bool, bool]:
         if self.applied_overrides:
-            return None, False, False
+            return self._apply(cls, value, path)
 
         schema = materialize_type(cls)
         errors = []
@@ -399,19 +404,69 @@ class OverridesDeserializer(Deserializer):
                 ):
                     val = False
             else:
-                val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
-            _value = value
-            for segment in fpath[:-1]:
-                if segment not in _value or _value[segment] is None:
-                    _value[segment] = {}
-                _value = _value[segment]
-            _value[fpath[-1]] = val
+                val = _structs_to_dicts(
+                    pyron.loads(str_val, preserve_structs=True, print_errors=False)
+                )
+            self.pending.setdefault(path, []).append((fpath, val))
         if len(errors) == 1:
             raise errors[0]
         elif len(errors) > 1:
             raise FieldsNotFoundError(errors)
         self.applied_overrides = True
-        return value, True, False
+        return self._apply(cls, value, path)
+
+    def _apply(
+        self, cls: Type[T], value: Any, path: str
+    ) -> Tuple[Optional[T], bool, bool]:
+        overrides = self.pending.pop(path, [])
+        if is_dataclass(value):
+            value = {f: getattr(value, f) for f in value.__dataclass_fields__}
+        if len(overrides) == 0 or not isinstance(value, dict):
+            return None, False, False
+        for fpath, val in overrides:
+            name = fpath[0]
+            section_path = f"{path}.{name}" if path else name
+            if len(fpath) == 1:
+                value[name] = val
+                self.pending.pop(section_path, None)
+            else:
+                if value.get(name) is None or _is_weak_section(value[name]):
+                    value[name] = _default_section(cls, name, value.get(name))
+                self.pending.setdefault(section_path, []).append((fpath[1:], val))
+        return value, True, False  # type: ignore
+
+
+def _structs_to_dicts(value: Any) -> Any:
+    if serde.isnamedtupleinstance(value) and len(value) > 0:
+        fields = {k: _structs_to_dicts(v) for k, v in value._asdict().items()}
+        return {"!__name__": value.__class__.__name__, **fields}
+    elif isinstance(value, dict):
+        return {k: _structs_to_dicts(v) for k, v in value.items()}
+    elif type(value) in (list, tuple):
+        return type(value)(_structs_to_dicts(v) for v in value)
+    return value
+
+
+def _default_section(cls: Type[Any], name: str, weak_refs: Any) -> Any:
+    """
+    Returns the value that the section `name` of `cls` has when it is not specified.
+    """
+    field = cls.__dataclass_fields__[name]
+    if field.default_factory is not MISSING:
+        default = field.default_factory()
+    elif field.default is not MISSING:
+        default = deepcopy(field.default)
+    else:
+        default = None
+    if default is not None:
+        return default
+    section = {k: v for k, v in (weak_refs or {}).items() if k != WEAK_REF}
+    section_cls = field.type
+    while serde.is_optional(section_cls):
+        section_cls = section_cls.__args__[0]
+    if issubclass(section_cls, Versioned):
+        section["version"] = section_cls.version()
+    return section
 
 
 class ScheduleDeserializer(Deserializer):
diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index 6aad800..7fa6d44 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -62,7 +62,9 @@ class VersionedDeserializer(Deserializer):
         path: str,
     ) -> Tuple[Optional[T], bool, bool]:
         if isclass(clz) and issubclass(clz, Versioned):
-            if isinstance(value, dict):
+            if isinstance(value, clz):
+                return None, False, False
+            elif isinstance(value, dict):
                 version = value.pop("version", None)
             elif hasattr(value, "version"):
                 version = value.version
-- 
2.43.0


From fe17ebd7d93476de66ba2d886bc44b77319252b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 15/66] fix: an invalid bool override silently used the value
 of the previous override

---
 hyperstate/hyperstate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index b85debf..1d06fc2 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -403,6 +403,10 @@ class OverridesDeserializer(Deserializer):
                     or str_val == "F"
                 ):
                     val = False
+                else:
+                    raise ValueError(
+                        f"Invalid override: {override}. Expected `true` or `false`."
+                    )
             else:
                 val = _structs_to_dicts(
                     pyron.loads(str_val, preserve_structs=True, print_errors=False)
-- 
2.43.0


From 6c2e5416643fcbab9c3e9a7ea3fb1054113d222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 16/66] fix: schedules nested more than two levels deep failed
 to load

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1d06fc2..7f86959 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -497,7 +497,7 @@ class ScheduleDeserializer(Deserializer):
             for segment in path.split(".")[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
-                schedules = self.schedules[segment]
+                schedules = schedules[segment]
             schedules[field_name] = Schedule(update, value)
             value = schedule.get_value(0.0)
             return cls(value), True, False  # type: ignore
-- 
2.43.0


From 1cb75a714d7c01437c7353493f59ed6b2c1efec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:12 +0000
Subject: [PATCH 17/66] fix: step schedules never reached the value of their
 last point

---
 hyperstate/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 950935b..7594186 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -15,7 +15,7 @@ T = TypeVar("T")
 INTERPOLATORS = {
     "lin": lambda x: 1 - x,
     "cos": lambda x: math.cos(x * math.pi) * 0.5 + 0.5,
-    "step": lambda _: 1,
+    "step": lambda x: 1 if x < 1 else 0,
 }
 
 
-- 
2.43.0


From 42ada065bbf5bfb4d4299eaaf0987ab5f4a6367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:14 +0000
Subject: [PATCH 18/66] fix: rounding errors took schedules outside the range
 of their points

A constant segment 3@0 3@10 could yield 2.9999999999999996, which becomes 2 in
an int field.
---
 hyperstate/schedule.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 7594186..aa2346e 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -53,7 +53,11 @@ class PiecewiseFunction:
             rescaled = 1
 
         w = segment.interpolator(rescaled)
-        return w * segment.initial_value + (1 - w) * segment.final_value
+        value = w * segment.initial_value + (1 - w) * segment.final_value
+        # Rounding must not lead outside the range of the segment
+        low = min(segment.initial_value, segment.final_value)
+        high = max(segment.initial_value, segment.final_value)
+        return min(max(value, low), high)
 
 
 def _parse_schedule(schedule: str) -> PiecewiseFunction:
-- 
2.43.0


From eb1c1ad21c5cc90e50e8f200ecc4f6513a1d68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:16 +0000
Subject: [PATCH 19/66] fix: schedules with a single point failed to load

---
 hyperstate/schedule.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index aa2346e..129cbdb 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -96,4 +96,15 @@ def _parse_schedule(schedule: str) -> PiecewiseFunction:
             last_x, last_y = x, y
         else:
             interpolator = INTERPOLATORS[part]
+    if len(segments) == 0 and last_x is not None:
+        # A single point is a constant
+        segments.append(
+            ScheduleSegment(
+                start=last_x,
+                initial_value=last_y,
+                end=math.inf,
+                final_value=last_y,
+                interpolator=interpolator,
+            )
+        )
     return PiecewiseFunction(segments, xname)
-- 
2.43.0


From 06b34081ba10833cca894905e032455a591be79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 20/66] fix: schedules inside lists and dicts failed to apply

---
 hyperstate/hyperstate.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 7f86959..a939684 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -223,7 +223,26 @@ def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> None
             schedule.update_value(config, state)
         else:
             assert isinstance(schedule, dict)
-            _apply_schedules(state, getattr(config, field_name), schedule)
+            _apply_schedules(state, _get_child(config, field_name), schedule)
+
+
+def _child_key(container: Any, name: str) -> Any:
+    if isinstance(container, dict):
+        return next(key for key in container if str(key) == name)
+    return int(name)
+
+
+def _get_child(value: Any, name: str) -> Any:
+    if isinstance(value, (dict, list, tuple)):
+        return value[_child_key(value, name)]  # type: ignore
+    return getattr(value, name)
+
+
+def _set_child(value: Any, name: str, child: Any) -> None:
+    if isinstance(value, (dict, list)):
+        value[_child_key(value, name)] = child  # type: ignore
+    else:
+        setattr(value, name, child)
 
 
 def _typed_dump(
@@ -486,15 +505,16 @@ class ScheduleDeserializer(Deserializer):
     ) -> Tuple[Optional[T], bool, bool]:
         if (cls == int or cls == float) and isinstance(value, str) and "@" in value:
             schedule = _parse_schedule(value)
-            field_name = path.split(".")[-1]
+            segments = path.replace("[", ".").replace("]", "").split(".")
+            field_name = segments[-1]
 
             def update(self: T, state: Any) -> None:
                 x = getattr(state, schedule.xname)
                 value = schedule.get_value(x)
-                setattr(self, field_name, cls(value))  # type: ignore
+                _set_child(self, field_name, cls(value))  # type: ignore
 
             schedules = self.schedules
-            for segment in path.split(".")[:-1]:
+            for segment in segments[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
                 schedules = schedules[segment]
-- 
2.43.0


From 6a121a3d776a1883c46e8db81068bfcaf2e3befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 21/66] fix: step deleted the only checkpoint when the
 checkpoint key had not changed

Also, when deleting the previous checkpoint failed half-way, all following
calls of step failed because the previous checkpoint was no longer there.
---
 hyperstate/hyperstate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index a939684..25f2e46 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -138,7 +138,11 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if self._last_checkpoint is not None:
+            if (
+                self._last_checkpoint is not None
+                and self._last_checkpoint != checkpoint_dir
+                and self._last_checkpoint.exists()
+            ):
                 with tempfile.TemporaryDirectory() as tmpdir:
                     shutil.move(str(self._last_checkpoint), tmpdir)
             self._last_checkpoint = checkpoint_dir
-- 
2.43.0


From 7a2870fe2270e92472a1eecd09b468b69c660640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 22/66] fix: unrelated folders in the checkpoint directory hid
 the latest checkpoint or were resumed from and deleted

---
 hyperstate/hyperstate.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 25f2e46..a3d736c 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -116,8 +116,8 @@ class StateManager(Generic[C, S]):
     def checkpoint_dir(self, value: Union[Path, None]) -> None:
         if value is not None:
             value.mkdir(parents=True, exist_ok=True)
-            checkpoint = find_latest_checkpoint(value)
-            if checkpoint is not None and checkpoint.name.startswith("latest"):
+            checkpoint = find_latest_checkpoint(value, self.checkpoint_key)
+            if checkpoint is not None:
                 self._last_checkpoint = checkpoint
         else:
             self._checkpoint_dir = None
@@ -357,20 +357,27 @@ def load(
     )[0]
 
 
-def find_latest_checkpoint(dir: Path) -> Optional[Path]:
+def find_latest_checkpoint(dir: Path, checkpoint_key: str) -> Optional[Path]:
+    """
+    Returns the automatic checkpoint in `dir` with the highest checkpoint key.
+    """
     # Check that dir exists
     if not dir.exists():
         return None
     latest = None
     latest_dir = None
+    prefix = f"latest-{checkpoint_key}"
     for d in dir.iterdir():
-        if d.is_dir() and len(d.name) >= 12:
+        if d.name.startswith(prefix) and d.is_dir():
             try:
-                if latest is None or int(d.name[-12:]) > latest:
-                    latest = int(d.name[-12:])
-                    latest_dir = d
+                val = int(d.name[len(prefix) :])
             except ValueError:
-                pass
+                continue
+            if d.name != f"{prefix}{val:012}":
+                continue
+            if latest is None or val > latest:
+                latest = val
+                latest_dir = d
     return latest_dir
 
 
-- 
2.43.0


From 7264955ecaee6eacef20ddd4d27ac4a14468d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 23/66] fix: old checkpoints left behind by a crash were never
 removed

---
 hyperstate/hyperstate.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index a3d736c..dbc7e7b 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -138,13 +138,18 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if (
-                self._last_checkpoint is not None
-                and self._last_checkpoint != checkpoint_dir
-                and self._last_checkpoint.exists()
-            ):
+            # A process that crashed may have left more than one old checkpoint
+            obsolete = {
+                path
+                for _, path in _automatic_checkpoints(
+                    self.checkpoint_dir, self.checkpoint_key
+                )
+            }
+            if self._last_checkpoint is not None and self._last_checkpoint.exists():
+                obsolete.add(self._last_checkpoint)
+            for path in sorted(obsolete - {checkpoint_dir}):
                 with tempfile.TemporaryDirectory() as tmpdir:
-                    shutil.move(str(self._last_checkpoint), tmpdir)
+                    shutil.move(str(path), tmpdir)
             self._last_checkpoint = checkpoint_dir
             # TODO: persistent checkpoints
 
@@ -364,8 +369,12 @@ def find_latest_checkpoint(dir: Path, checkpoint_key: str) -> Optional[Path]:
     # Check that dir exists
     if not dir.exists():
         return None
-    latest = None
-    latest_dir = None
+    latest = max(_automatic_checkpoints(dir, checkpoint_key), default=None)
+    return latest[1] if latest is not None else None
+
+
+def _automatic_checkpoints(dir: Path, checkpoint_key: str) -> List[Tuple[int, Path]]:
+    checkpoints = []
     prefix = f"latest-{checkpoint_key}"
     for d in dir.iterdir():
         if d.name.startswith(prefix) and d.is_dir():
@@ -373,12 +382,9 @@ def find_latest_checkpoint(dir: Path, checkpoint_key: str) -> Optional[Path]:
                 val = int(d.name[len(prefix) :])
             except ValueError:
                 continue
-            if d.name != f"{prefix}{val:012}":
-                continue
-            if latest is None or val > latest:
-                latest = val
-                latest_dir = d
-    return latest_dir
+            if d.name == f"{prefix}{val:012}":
+                checkpoints.append((val, d))
+    return checkpoints
 
 
 @dataclass
-- 
2.43.0


From ae697df1c112246909d5de239e407fd456742f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 24/66] fix: a lazy field assigned before its first access was
 replaced by the value on disk

---
 hyperstate/lazy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index f1843f7..0622261 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -67,9 +67,13 @@ class Lazy:
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
             self.__setattr__(name, value)
-            del unloaded[name]
         return super(Lazy, self).__getattribute__(name)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        super(Lazy, self).__setattr__(name, value)
+        # Once assigned, the value on disk must not replace the new value
+        self.__dict__.get("_unloaded_lazy_fields", {}).pop(name, None)
+
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
         Add a value to the deserialization context.
-- 
2.43.0


From ff6d85cee746eabba17e7924e084c9e10d079b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 25/66] fix: restored numpy arrays were read-only

---
 hyperstate/msgpack_torch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 1a9a8d8..2084a63 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -32,8 +32,10 @@ def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
                 dtype=np.dtype(obj[b"dtype"]),
                 shape=obj[b"shape"],
             )
+            # The buffer belongs to an immutable bytes object
+            tensor = np.copy(tensor)
             if obj[b"__tensor__"] == "torch" and torch is not None:
-                return torch.from_numpy(np.copy(tensor))
+                return torch.from_numpy(tensor)
             else:
                 return tensor
         else:
-- 
2.43.0


From 724c23eae514f7b03297c49bc400630ef970bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 26/66] fix: structured arrays lost their fields and object
 arrays were restored as stale pointers

---
 hyperstate/msgpack_torch.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 2084a63..ff0d15c 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -13,10 +13,11 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
         obj = obj.cpu().numpy()
         tensor_type = "torch"
 
-    if isinstance(obj, np.ndarray):
+    # The data of object arrays consists of pointers
+    if isinstance(obj, np.ndarray) and not obj.dtype.hasobject:
         return {
             b"__tensor__": tensor_type or "numpy",
-            b"dtype": obj.dtype.str,
+            b"dtype": _encode_dtype(obj.dtype),
             b"shape": obj.shape,
             b"data": np.ndarray.tobytes(obj),
         }
@@ -24,12 +25,37 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
         return obj if chain is None else chain(obj)
 
 
+def _encode_dtype(dtype: np.dtype) -> Any:
+    if dtype.subdtype is not None:
+        base, shape = dtype.subdtype
+        return [_encode_dtype(base), shape]
+    elif dtype.names is not None:
+        fields = [dtype.fields[name] for name in dtype.names]  # type: ignore
+        return {
+            "names": dtype.names,
+            "formats": [_encode_dtype(f[0]) for f in fields],
+            "offsets": [f[1] for f in fields],
+            "titles": [f[2] if len(f) > 2 else None for f in fields],
+            "itemsize": dtype.itemsize,
+        }
+    return dtype.str
+
+
+def _decode_dtype(encoded: Any) -> np.dtype:
+    if isinstance(encoded, list):
+        return np.dtype((_decode_dtype(encoded[0]), tuple(encoded[1])))
+    elif isinstance(encoded, dict):
+        formats = [_decode_dtype(f) for f in encoded["formats"]]
+        return np.dtype({**encoded, "formats": formats})  # type: ignore
+    return np.dtype(encoded)
+
+
 def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
     try:
         if b"__tensor__" in obj:
             tensor: Any = np.ndarray(
                 buffer=obj[b"data"],
-                dtype=np.dtype(obj[b"dtype"]),
+                dtype=_decode_dtype(obj[b"dtype"]),
                 shape=obj[b"shape"],
             )
             # The buffer belongs to an immutable bytes object
-- 
2.43.0


From 034da4354c8619fccd0bf4bfc92587017265411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 27/66] fix: data which only resembles an encoded array failed
 to load or was turned into an array

---
 hyperstate/msgpack_torch.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index ff0d15c..30913b5 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -47,24 +47,32 @@ def _decode_dtype(encoded: Any) -> np.dtype:
     elif isinstance(encoded, dict):
         formats = [_decode_dtype(f) for f in encoded["formats"]]
         return np.dtype({**encoded, "formats": formats})  # type: ignore
+    elif not isinstance(encoded, str):
+        raise TypeError(f"{encoded} is not an encoded dtype")
     return np.dtype(encoded)
 
 
+_KEYS = {b"__tensor__", b"dtype", b"shape", b"data"}
+
+
 def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
-    try:
-        if b"__tensor__" in obj:
-            tensor: Any = np.ndarray(
+    tensor: Any = None
+    tag = obj.get(b"__tensor__")
+    if isinstance(tag, str) and tag in ("numpy", "torch") and obj.keys() == _KEYS:
+        try:
+            tensor = np.ndarray(
                 buffer=obj[b"data"],
                 dtype=_decode_dtype(obj[b"dtype"]),
                 shape=obj[b"shape"],
             )
-            # The buffer belongs to an immutable bytes object
-            tensor = np.copy(tensor)
-            if obj[b"__tensor__"] == "torch" and torch is not None:
-                return torch.from_numpy(tensor)
-            else:
-                return tensor
-        else:
-            return obj if chain is None else chain(obj)
-    except KeyError:
+        except (TypeError, ValueError):
+            pass
+    if tensor is None or tensor.nbytes != len(obj[b"data"]):
+        # Not an encoded tensor
         return obj if chain is None else chain(obj)
+    # The buffer belongs to an immutable bytes object
+    tensor = np.copy(tensor)
+    if tag == "torch" and torch is not None:
+        return torch.from_numpy(tensor)
+    else:
+        return tensor
-- 
2.43.0


From ea9218cf89e92e676d067d16fd80c688a337e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 28/66] fix: schedules in dicts whose keys contain dots or
 brackets failed to apply or were not saved

---
 hyperstate/hyperstate.py |  2 +-
 hyperstate/serde.py      | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index dbc7e7b..752055a 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -237,7 +237,7 @@ def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> None
 
 def _child_key(container: Any, name: str) -> Any:
     if isinstance(container, dict):
-        return next(key for key in container if str(key) == name)
+        return next(key for key in container if serde.path_segment(key) == name)
     return int(name)
 
 
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 1da32a0..c5d2c9a 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -98,7 +98,7 @@ def asdict(
                 value=v,
                 named_tuples=named_tuples,
                 serializers=serializers,
-                file=k if file == "" else f"{file}.{k}",
+                file=_join_path(file, k),
             )
             for k, v in value.items()
         }
@@ -236,7 +236,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            from_dict(clz.__args__[0], k, None, fpath): from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
+            from_dict(clz.__args__[0], k, None, fpath): from_dict(clz.__args__[1], v, deserializers, _join_path(fpath, k), ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -429,6 +429,18 @@ def to_ron(value: Any) -> str:
     return _RON_TOKEN.sub(fix_token, pyron.to_string(value))
 
 
+def path_segment(key: Any) -> str:
+    """
+    Returns the representation of a dict key in paths, which contains no characters
+    that separate the segments of a path.
+    """
+    return re.sub(r"[%./\\\[\]\0]", lambda m: f"%{ord(m.group(0)):02X}", str(key))
+
+
+def _join_path(path: str, key: Any) -> str:
+    return f"{path}.{path_segment(key)}" if path else path_segment(key)
+
+
 def is_optional(clz: Type[Any]) -> bool:
     return (
         hasattr(clz, "__origin__")
-- 
2.43.0


From e607775b7e88075acdd4b58d09d973d109aa6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 29/66] fix: serializable fields which are nested, in lists or
 dicts or part of a state that is not lazy were restored as None

---
 hyperstate/hyperstate.py | 14 +++++-
 hyperstate/lazy.py       | 96 ++++++++++++++++++++++++++++++----------
 2 files changed, 85 insertions(+), 25 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 752055a..06104c1 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -1,5 +1,6 @@
 import os
 import errno
+import inspect
 import os
 import shutil
 from abc import ABC, abstractmethod
@@ -190,6 +191,7 @@ class StateManager(Generic[C, S]):
             file=path / "state.ron",
             config=self.config,
             ignore_extra_fields=self.ignore_extra_fields,
+            deserialize_ctx=self._deserialize_ctx,
         )[0]
 
     def checkpoint(self, target_dir: str) -> None:
@@ -296,6 +298,7 @@ def _typed_load(
     config: Optional[Any] = None,
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
+    deserialize_ctx: Optional[Dict[str, Any]] = None,
 ) -> Tuple[T, Dict[str, Any]]:
     schedules = ScheduleDeserializer()
     deserializers: List[Deserializer] = [
@@ -308,7 +311,11 @@ def _typed_load(
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
-        lazy = LazyDeserializer(config, file.absolute().parent)
+        lazy = LazyDeserializer(
+            config,
+            file.absolute().parent,
+            inspect.isclass(clz) and issubclass(clz, Lazy),
+        )
         deserializers.append(lazy)
         value = serde.load(
             clz,
@@ -325,6 +332,11 @@ def _typed_load(
         )
     if lazy is not None and len(lazy.lazy_fields) > 0:
         value._unloaded_lazy_fields = lazy.lazy_fields  # type: ignore
+    if lazy is not None and lazy.has_remaining:
+        ctx = {**(deserialize_ctx or {})}
+        if isinstance(value, Lazy):
+            value._deserialize_ctx = ctx
+        value = lazy.load_remaining(value, value, ctx)
     return value, schedules.schedules
 
 
diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 0622261..5d5edd5 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -10,7 +10,7 @@ from typing import (
     Generic,
     TypeVar,
 )
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, is_dataclass
 from pathlib import Path
 import msgpack
 
@@ -43,26 +43,9 @@ class Lazy:
         except AttributeError:
             unloaded = None
         if unloaded is not None and name in unloaded:
-            ser_clz, config, path, legacy_pickle = unloaded[name]
-            with open(path, "rb") as f:
-                if legacy_pickle:
-                    if "UNSAFE_DESERIALIZE_PICKLE" in os.environ:
-                        import pickle
-
-                        state_dict = pickle.load(f)
-                    else:
-                        raise RuntimeError(
-                            "Deserialization of legacy snapshots containing pickled objects is not allowed as of hyperstate==0.4.0."
-                            "To enable it, set the environment variable UNSAFE_DESERIALIZE_PICKLE to 1."
-                        )
-                else:
-                    state_dict = msgpack.unpack(
-                        f, object_hook=msgpack_torch.decode, strict_map_key=False
-                    )
             # TODO: recursion check
-            value = ser_clz.deserialize(
-                state_dict,
-                config,
+            value = _load_blob(
+                *unloaded[name],
                 self,
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
@@ -86,13 +69,51 @@ class Lazy:
         self._deserialize_ctx[key] = value
 
 
+def _load_blob(
+    ser_clz: Type[Serializable],
+    config: Any,
+    path: Path,
+    legacy_pickle: bool,
+    state: Any,
+    ctx: Dict[str, Any],
+) -> Any:
+    with open(path, "rb") as f:
+        if legacy_pickle:
+            if "UNSAFE_DESERIALIZE_PICKLE" in os.environ:
+                import pickle
+
+                state_dict = pickle.load(f)
+            else:
+                raise RuntimeError(
+                    "Deserialization of legacy snapshots containing pickled objects is not allowed as of hyperstate==0.4.0."
+                    "To enable it, set the environment variable UNSAFE_DESERIALIZE_PICKLE to 1."
+                )
+        else:
+            state_dict = msgpack.unpack(
+                f, object_hook=msgpack_torch.decode, strict_map_key=False
+            )
+    return ser_clz.deserialize(state_dict, config, state, ctx)
+
+
+@dataclass
+class _Unloaded:
+    """
+    Placeholder for a serializable object that is loaded by `LazyDeserializer.load_remaining`.
+    """
+
+    field: Tuple[Type[Serializable], Any, Path, bool]
+
+
 @dataclass
 class LazyDeserializer(Deserializer, Generic[C]):
     config: C
     path: Path
+    # Whether the fields of the root object are loaded when they are first accessed
+    lazy: bool
     lazy_fields: Dict[str, Tuple[Type[Serializable], C, Path, bool]] = field(
         default_factory=dict
     )
+    has_remaining: bool = False
 
     def deserialize(
         self,
@@ -114,17 +135,44 @@ class LazyDeserializer(Deserializer, Generic[C]):
                 )
             else:
                 filepath = (
-                    "state." + path.replace("[", "_").replace("]", "") + ".msgpack"
+                    "state." + path.replace("[", ".").replace("]", "") + ".msgpack"
                 )
-            self.lazy_fields[path] = (
+            unloaded = (
                 cls,
                 self.config,
                 self.path / filepath,
                 value == "<BLOB>" or value == "<blob:pickle>",
             )
-            return None, True, True
+            if self.lazy and "." not in path and "[" not in path:
+                self.lazy_fields[path] = unloaded
+                return None, True, True
+            self.has_remaining = True
+            return _Unloaded(unloaded), True, True  # type: ignore
         return None, False, False
 
+    def load_remaining(self, value: Any, state: Any, ctx: Dict[str, Any]) -> Any:
+        """
+        Loads all serializable objects which are not loaded lazily.
+        """
+        if isinstance(value, _Unloaded):
+            return _load_blob(*value.field, state, ctx)
+        elif isinstance(value, dict):
+            for k, v in value.items():
+                value[k] = self.load_remaining(v, state, ctx)
+        elif isinstance(value, list):
+            value[:] = [self.load_remaining(v, state, ctx) for v in value]
+        elif isinstance(value, tuple):
+            return tuple(self.load_remaining(v, state, ctx) for v in value)
+        elif is_dataclass(value):
+            for name in value.__dataclass_fields__:
+                if value is state and name in self.lazy_fields:
+                    continue
+                old = getattr(value, name)
+                new = self.load_remaining(old, state, ctx)
+                if new is not old:
+                    object.__setattr__(value, name, new)
+        return value
+
 
 @dataclass
 class LazySerializer(Serializer):
@@ -137,7 +185,7 @@ class LazySerializer(Serializer):
         named_tuples: bool,
     ) -> Tuple[Any, bool]:
         if isinstance(value, Serializable):
-            path = "state." + path.replace("[", "_").replace("]", "") + ".msgpack"
+            path = "state." + path + ".msgpack"
             self.blobs[path] = msgpack.packb(
                 value.serialize(), default=msgpack_torch.encode
             )
-- 
2.43.0


From 5705bb05134c126520db206eb70df4ab1556e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 30/66] fix: the data of serializable objects in different
 files of one directory overwrote each other

Checkpoints keep using the prefix 'state.', which is the name of the state file.
---
 hyperstate/hyperstate.py |  4 ++--
 hyperstate/lazy.py       | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 06104c1..2e5e588 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -263,7 +263,7 @@ def _typed_dump(
     elide_defaults: bool = False,
 ) -> str:
     serializers = []
-    lazy_serializer = LazySerializer()
+    lazy_serializer = LazySerializer(file)
     serializers = [lazy_serializer, VersionedSerializer()]
     if schedules is not None:
         serializers.append(ScheduleSerializer(schedules))
@@ -313,7 +313,7 @@ def _typed_load(
     if file is not None:
         lazy = LazyDeserializer(
             config,
-            file.absolute().parent,
+            file.absolute(),
             inspect.isclass(clz) and issubclass(clz, Lazy),
         )
         deserializers.append(lazy)
diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 5d5edd5..0366f94 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -14,7 +14,7 @@ from dataclasses import dataclass, field, is_dataclass
 from pathlib import Path
 import msgpack
 
-from hyperstate.serde import Serializer, Deserializer
+from hyperstate.serde import Serializer, Deserializer, path_segment
 from hyperstate import msgpack_torch
 
 
@@ -95,6 +95,17 @@ def _load_blob(
     return ser_clz.deserialize(state_dict, config, state, ctx)
 
 
+def _blob_prefix(file: Optional[Path]) -> str:
+    """
+    Returns the start of the names of all files with the data of serializable objects in `file`.
+    """
+    if file is None:
+        return ""
+    elif file.suffix == ".ron":
+        return f"{path_segment(file.stem)}."
+    return f"{path_segment(file.name)}%."
+
+
 @dataclass
 class _Unloaded:
     """
@@ -107,7 +118,8 @@ class _Unloaded:
 @dataclass
 class LazyDeserializer(Deserializer, Generic[C]):
     config: C
-    path: Path
+    # The file which is loaded
+    file: Path
     # Whether the fields of the root object are loaded when they are first accessed
     lazy: bool
     lazy_fields: Dict[str, Tuple[Type[Serializable], C, Path, bool]] = field(
@@ -127,20 +139,25 @@ class LazyDeserializer(Deserializer, Generic[C]):
                 or value == "<blob:pickle>"
                 or value == "<blob:msgpack>"
             )
+            directory = self.file.parent
             if value == "<BLOB>":
-                filepath = path.replace(".", "/").replace("[", "/").replace("]", "")
+                filepath = directory / path.replace(".", "/").replace("[", "/").replace(
+                    "]", ""
+                )
             elif value == "<blob:pickle>":
-                filepath = (
+                filepath = directory / (
                     "state." + path.replace("[", "_").replace("]", "") + ".pickle"
                 )
             else:
-                filepath = (
-                    "state." + path.replace("[", ".").replace("]", "") + ".msgpack"
-                )
+                name = path.replace("[", ".").replace("]", "") + ".msgpack"
+                filepath = directory / (_blob_prefix(self.file) + name)
+                if not filepath.exists() and not (directory / "state.ron").exists():
+                    # Older versions used the prefix "state." for all files
+                    filepath = directory / ("state." + name)
             unloaded = (
                 cls,
                 self.config,
-                self.path / filepath,
+                filepath,
                 value == "<BLOB>" or value == "<blob:pickle>",
             )
             if self.lazy and "." not in path and "[" not in path:
@@ -176,6 +193,8 @@ class LazyDeserializer(Deserializer, Generic[C]):
 
 @dataclass
 class LazySerializer(Serializer):
+    # The file which is written
+    file: Optional[Path]
     blobs: Dict[str, bytes] = field(default_factory=dict)
 
     def serialize(
@@ -185,7 +204,7 @@ class LazySerializer(Serializer):
         named_tuples: bool,
     ) -> Tuple[Any, bool]:
         if isinstance(value, Serializable):
-            path = "state." + path + ".msgpack"
+            path = _blob_prefix(self.file) + path + ".msgpack"
             self.blobs[path] = msgpack.packb(
                 value.serialize(), default=msgpack_torch.encode
             )
-- 
2.43.0


From b34465220ab9f2f063e948d88c1311d0c803a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 31/66] fix: schedules inside tuples failed to apply

---
 hyperstate/hyperstate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 2e5e588..45fc333 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -234,7 +234,13 @@ def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> None
             schedule.update_value(config, state)
         else:
             assert isinstance(schedule, dict)
-            _apply_schedules(state, _get_child(config, field_name), schedule)
+            child = _get_child(config, field_name)
+            if isinstance(child, tuple):
+                elements = list(child)
+                _apply_schedules(state, elements, schedule)
+                _set_child(config, field_name, tuple(elements))
+            else:
+                _apply_schedules(state, child, schedule)
 
 
 def _child_key(container: Any, name: str) -> Any:
@@ -244,7 +250,7 @@ def _child_key(container: Any, name: str) -> Any:
 
 
 def _get_child(value: Any, name: str) -> Any:
-    if isinstance(value, (dict, list, tuple)):
+    if isinstance(value, (dict, list)):
         return value[_child_key(value, name)]  # type: ignore
     return getattr(value, name)
 
-- 
2.43.0


From 5282ad8eed498b958380d76c4d47519efb5845da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 32/66] fix: more data which only looks like an encoded array
 could not be loaded

---
 hyperstate/msgpack_torch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 30913b5..94ef665 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -58,14 +58,19 @@ _KEYS = {b"__tensor__", b"dtype", b"shape", b"data"}
 def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
     tensor: Any = None
     tag = obj.get(b"__tensor__")
-    if isinstance(tag, str) and tag in ("numpy", "torch") and obj.keys() == _KEYS:
+    if (
+        isinstance(tag, str)
+        and tag in ("numpy", "torch")
+        and obj.keys() == _KEYS
+        and isinstance(obj[b"data"], bytes)
+    ):
         try:
             tensor = np.ndarray(
                 buffer=obj[b"data"],
                 dtype=_decode_dtype(obj[b"dtype"]),
                 shape=obj[b"shape"],
             )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, KeyError, IndexError):
             pass
     if tensor is None or tensor.nbytes != len(obj[b"data"]):
         # Not an encoded tensor
-- 
2.43.0


From fd1f9947f40d0318bdb0cc3c19ff0fcc57f565bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:10 +0000
Subject: [PATCH 33/66] fix: sections with a default instance were shared by
 all loaded configs

---
 hyperstate/serde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index c5d2c9a..1ad8b4a 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -1,5 +1,6 @@
 from abc import ABC, abstractmethod
 from collections import namedtuple
+from copy import deepcopy
 from enum import Enum, EnumMeta
 from os import name
 import re
@@ -339,6 +340,9 @@ def _try_create_defaults(
                 kwargs[field.name] = field.type(**_kwargs)
             else:
                 still_missing.append(_field_name)
+        elif field.init and is_dataclass(field.default):
+            # The default is a single instance which belongs to the class
+            kwargs[field.name] = deepcopy(field.default)
 
     if len(still_missing) > 0:
         prefix = f"{fpath}." if fpath else ""
-- 
2.43.0


From 4078f658d5db73727b8289429746ca8e048ce57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 34/66] fix: schemas with dicts, tuples or unions could not be
 compared or read back

---
 hyperstate/schema/schema_checker.py |  5 ++++-
 hyperstate/schema/types.py          | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 433de3e..cd55d2d 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -223,7 +223,10 @@ class SchemaChecker:
                         removed_values,
                     )
                 )
-        else:
+        elif isinstance(old, (t.Tuple, t.Dict, t.Union)):
+            if old != new:
+                self.changes.append(TypeChanged(tuple(path), old, new))
+        elif not isinstance(old, t.Nothing):
             raise ValueError(f"Field {'.'.join(path)} has unsupported type {type(old)}")
 
     def _find_renames(
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index ac00e30..314e3f9 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -124,7 +124,7 @@ class Field:
     type: Type
     default: Any
     has_default: bool
-    docstring: typing.Optional[str] = None
+    docstring: typing.Optional[str] = dataclasses.field(default=None, compare=False)
 
 
 @dataclass(eq=True, frozen=True)
@@ -311,6 +311,14 @@ def schema_from_namedtuple(schema: Any) -> Type:
         return Primitive(schema.type)
     elif clz_name == "List":
         return List(schema_from_namedtuple(schema.inner))
+    elif clz_name == "Tuple":
+        return Tuple([schema_from_namedtuple(inner) for inner in schema.inner])
+    elif clz_name == "Dict":
+        return Dict(
+            schema_from_namedtuple(schema.key), schema_from_namedtuple(schema.val)
+        )
+    elif clz_name == "Union":
+        return Union([schema_from_namedtuple(t) for t in schema.types])
     elif clz_name == "Struct":
         fields = {}
         for name, field in schema.fields.items():
-- 
2.43.0


From 0b293d0afb2bdca380c935d9701d00ff994c00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 35/66] fix: defaults which are sections, or contain enums or
 awkward values, did not survive a schema file or were reported as changed

---
 hyperstate/schema/rewrite_rule.py   |  4 ++-
 hyperstate/schema/schema_checker.py | 47 +++++++++++++++++++++++++++--
 hyperstate/schema/types.py          | 36 ++++++++++++++++++++--
 3 files changed, 81 insertions(+), 6 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index cf49637..889f6b3 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -106,7 +106,9 @@ class ChangeDefault(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert field.default == self.old_default, f"Default value mismatch"
+        assert types.plain_value(field.default) == types.plain_value(
+            self.old_default
+        ), f"Default value mismatch"
         _insert_schema(schema, self.field, replace(field, default=self.new_default))
 
 
diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index cd55d2d..1f20569 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -4,9 +4,9 @@ from dataclasses import is_dataclass
 from pathlib import Path
 import difflib
 
-import pyron
 import click
 
+import hyperstate.serde as serde
 from hyperstate.hyperstate import _typed_dump, _typed_load
 from hyperstate.schema.schema_change import (
     DefaultValueChanged,
@@ -150,7 +150,12 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and oldfield.default != field.default:
+                        elif oldfield.has_default and not _same_default(
+                            t.plain_value(oldfield.default),
+                            oldfield.type,
+                            t.plain_value(field.default),
+                            field.type,
+                        ):
                             self.changes.append(
                                 DefaultValueChanged(
                                     tuple(path + [name]),
@@ -335,6 +340,40 @@ class SchemaChecker:
                 )
 
 
+def _same_default(old: Any, old_type: t.Type, new: Any, new_type: t.Type) -> bool:
+    """
+    Whether a default value did not change, other than by changes to its type that are
+    reported elsewhere (fields or enum variants which were added, removed or renumbered).
+    """
+    if isinstance(old_type, t.Option):
+        return _same_default(old, old_type.type, new, new_type)
+    if isinstance(new_type, t.Option):
+        return _same_default(old, old_type, new, new_type.type)
+    if isinstance(old_type, t.List) and isinstance(new_type, t.List):
+        if isinstance(old, list) and isinstance(new, list):
+            return len(old) == len(new) and all(
+                _same_default(o, old_type.inner, n, new_type.inner)
+                for o, n in zip(old, new)
+            )
+    elif isinstance(old_type, t.Struct) and isinstance(new_type, t.Struct):
+        if isinstance(old, dict) and isinstance(new, dict):
+            return all(
+                _same_default(
+                    old[name],
+                    old_type.fields[name].type,
+                    new[name],
+                    new_type.fields[name].type,
+                )
+                for name in old_type.fields.keys() & new_type.fields.keys()
+                if name in old and name in new
+            )
+    elif isinstance(old_type, t.Enum) and isinstance(new_type, t.Enum):
+        for variant, value in old_type.variants.items():
+            if value == old and variant in new_type.variants:
+                return bool(new_type.variants[variant] == new)
+    return bool(old == new)
+
+
 def name_similarity(field1: str, field2: str) -> float:
     # Special cases
     # TODO: fold these into tweaked levenshtein with different costs for different edits
@@ -378,7 +417,9 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = pyron.to_string(materialize_type(type))
+    serialized = serde.to_ron(
+        serde.asdict(materialize_type(type), named_tuples=True)
+    )
     with open(filename, "w") as f:
         f.write(serialized)
 
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 314e3f9..7426651 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -124,7 +124,18 @@ class Field:
     type: Type
     default: Any
     has_default: bool
-    docstring: typing.Optional[str] = dataclasses.field(default=None, compare=False)
+    docstring: typing.Optional[str] = None
+
+    def __eq__(self, other: Any) -> bool:
+        if other.__class__ is not self.__class__:
+            return NotImplemented
+        # The documentation is not part of the recorded schema
+        return (
+            self.name == other.name
+            and self.type == other.type
+            and self.has_default == other.has_default
+            and plain_value(self.default) == plain_value(other.default)
+        )
 
 
 @dataclass(eq=True, frozen=True)
@@ -296,6 +307,27 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
         raise ValueError(f"Unsupported type: {clz}")
 
 
+def plain_value(value: Any) -> Any:
+    """
+    Converts a default value to the form it has in a schema file, with dataclasses
+    represented by dictionaries and enums by their values.
+    """
+    if is_dataclass(value) and not isinstance(value, type):
+        return {
+            name: plain_value(getattr(value, name))
+            for name in value.__dataclass_fields__
+        }
+    elif isinstance(value, tuple) and hasattr(value, "_fields"):
+        return {name: plain_value(v) for name, v in value._asdict().items()}  # type: ignore
+    elif isinstance(value, enum.Enum):
+        return value.value
+    elif isinstance(value, dict):
+        return {k: plain_value(v) for k, v in value.items()}
+    elif isinstance(value, (list, tuple)):
+        return type(value)(plain_value(v) for v in value)
+    return value
+
+
 def is_optional(clz: Any) -> bool:
     return (
         hasattr(clz, "__origin__")
@@ -325,7 +357,7 @@ def schema_from_namedtuple(schema: Any) -> Type:
             fields[name] = Field(
                 name,
                 schema_from_namedtuple(field.type),
-                field.default,
+                plain_value(field.default),
                 field.has_default,
             )
         return Struct(schema.name, fields, schema.version)
-- 
2.43.0


From 24eeee4cd813437d3368b3538b84730bbe54ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 36/66] fix: incompatible changes below options and sections
 were treated as compatible

---
 hyperstate/schema/schema_checker.py | 36 +--------------
 hyperstate/schema/types.py          | 71 +++++++++++++++++++++++++++--
 2 files changed, 67 insertions(+), 40 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 1f20569..23448d7 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -150,7 +150,7 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and not _same_default(
+                        elif oldfield.has_default and not t.same_default(
                             t.plain_value(oldfield.default),
                             oldfield.type,
                             t.plain_value(field.default),
@@ -340,40 +340,6 @@ class SchemaChecker:
                 )
 
 
-def _same_default(old: Any, old_type: t.Type, new: Any, new_type: t.Type) -> bool:
-    """
-    Whether a default value did not change, other than by changes to its type that are
-    reported elsewhere (fields or enum variants which were added, removed or renumbered).
-    """
-    if isinstance(old_type, t.Option):
-        return _same_default(old, old_type.type, new, new_type)
-    if isinstance(new_type, t.Option):
-        return _same_default(old, old_type, new, new_type.type)
-    if isinstance(old_type, t.List) and isinstance(new_type, t.List):
-        if isinstance(old, list) and isinstance(new, list):
-            return len(old) == len(new) and all(
-                _same_default(o, old_type.inner, n, new_type.inner)
-                for o, n in zip(old, new)
-            )
-    elif isinstance(old_type, t.Struct) and isinstance(new_type, t.Struct):
-        if isinstance(old, dict) and isinstance(new, dict):
-            return all(
-                _same_default(
-                    old[name],
-                    old_type.fields[name].type,
-                    new[name],
-                    new_type.fields[name].type,
-                )
-                for name in old_type.fields.keys() & new_type.fields.keys()
-                if name in old and name in new
-            )
-    elif isinstance(old_type, t.Enum) and isinstance(new_type, t.Enum):
-        for variant, value in old_type.variants.items():
-            if value == old and variant in new_type.variants:
-                return bool(new_type.variants[variant] == new)
-    return bool(old == new)
-
-
 def name_similarity(field1: str, field2: str) -> float:
     # Special cases
     # TODO: fold these into tweaked levenshtein with different costs for different edits
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 7426651..d02fc8d 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -137,6 +137,30 @@ class Field:
             and plain_value(self.default) == plain_value(other.default)
         )
 
+    def effective_default(self) -> typing.Tuple[Any, bool]:
+        """
+        Returns the value of the field when it is not specified.
+        Sections without default are constructed from the defaults of their fields.
+        """
+        if self.has_default:
+            return plain_value(self.default), True
+        if not isinstance(self.type, Struct):
+            return None, False
+        section = {}
+        for field in self.type.fields.values():
+            section[field.name], ok = field.effective_default()
+            if not ok:
+                return None, False
+        return section, True
+
+    def is_subfield(self, other: "Field") -> bool:
+        old, had_default = self.effective_default()
+        new, has_default = other.effective_default()
+        return self.type.is_subtype(other.type) and (
+            not had_default
+            or (has_default and same_default(old, self.type, new, other.type))
+        )
+
 
 @dataclass(eq=True, frozen=True)
 class Enum:
@@ -215,12 +239,15 @@ class Struct:
         return (
             isinstance(other, Struct)
             and all(
-                k in other.fields
-                and other.fields[k].type.is_subtype(self.fields[k].type)
+                k in other.fields and self.fields[k].is_subfield(other.fields[k])
                 for k in self.fields
             )
-            or (isinstance(other, Option) and self.is_subtype(other.type))
-        )
+            and all(
+                other.fields[k].effective_default()[1]
+                for k in other.fields
+                if k not in self.fields
+            )
+        ) or (isinstance(other, Option) and self.is_subtype(other.type))
 
 
 @dataclass(eq=True, frozen=True)
@@ -231,7 +258,7 @@ class Option:
         return f"Optional[{self.type}]"
 
     def is_subtype(self, other: Type) -> bool:
-        return isinstance(other, Option) and other.type.is_subtype(self.type)
+        return isinstance(other, Option) and self.type.is_subtype(other.type)
 
 
 @dataclass(eq=True, frozen=True)
@@ -328,6 +355,40 @@ def plain_value(value: Any) -> Any:
     return value
 
 
+def same_default(old: Any, old_type: Type, new: Any, new_type: Type) -> bool:
+    """
+    Whether a default value did not change, other than by changes to its type that are
+    reported elsewhere (fields or enum variants which were added, removed or renumbered).
+    """
+    if isinstance(old_type, Option):
+        return same_default(old, old_type.type, new, new_type)
+    if isinstance(new_type, Option):
+        return same_default(old, old_type, new, new_type.type)
+    if isinstance(old_type, List) and isinstance(new_type, List):
+        if isinstance(old, list) and isinstance(new, list):
+            return len(old) == len(new) and all(
+                same_default(o, old_type.inner, n, new_type.inner)
+                for o, n in zip(old, new)
+            )
+    elif isinstance(old_type, Struct) and isinstance(new_type, Struct):
+        if isinstance(old, dict) and isinstance(new, dict):
+            return all(
+                same_default(
+                    old[name],
+                    old_type.fields[name].type,
+                    new[name],
+                    new_type.fields[name].type,
+                )
+                for name in old_type.fields.keys() & new_type.fields.keys()
+                if name in old and name in new
+            )
+    elif isinstance(old_type, Enum) and isinstance(new_type, Enum):
+        for variant, value in old_type.variants.items():
+            if value == old and variant in new_type.variants:
+                return bool(new_type.variants[variant] == new)
+    return bool(old == new)
+
+
 def is_optional(clz: Any) -> bool:
     return (
         hasattr(clz, "__origin__")
-- 
2.43.0


From 4ae0ab6ce021cd2bf248c7c52466e6b7bd9240ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:31 +0000
Subject: [PATCH 37/66] fix: schedules that begin or end with a jump fail with
 a division by zero

---
 hyperstate/schedule.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 129cbdb..71c0542 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -46,7 +46,11 @@ class PiecewiseFunction:
             if x < s.end:
                 break
         assert segment is not None
-        rescaled = (x - segment.start) / (segment.end - segment.start)
+        if segment.end == segment.start:
+            # The value jumps
+            rescaled = 0.0 if x < segment.start else 1.0
+        else:
+            rescaled = (x - segment.start) / (segment.end - segment.start)
         if rescaled < 0:
             rescaled = 0
         elif rescaled > 1:
-- 
2.43.0


From 3ca0d8dc0e9798fa09311fecd85e748de2260872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:54 +0000
Subject: [PATCH 38/66] fix: a variant removed from one enum is reported as
 renamed to a variant added to another

---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 23448d7..1d708b7 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -289,6 +289,8 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
+            if removed.field != added.field:
+                return None
             return name_similarity(removed.variant, added.variant)
 
         def enum_renamed(
-- 
2.43.0


From aa9d7afe5435feb87d563a377ccecae2070b6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 39/66] fix: the removal of a section without fields is not
 reported

---
 hyperstate/schema/schema_checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 1d708b7..69ce549 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -328,6 +328,9 @@ class SchemaChecker:
                 )
 
     def _all_gone(self, struct: t.Struct, path: typing.List[str]) -> None:
+        if len(struct.fields) == 0:
+            # Old configs may contain the section even though it has no fields
+            self.changes.append(FieldRemoved(tuple(path), struct))
         for name, field in struct.fields.items():
             if isinstance(field.type, t.Struct):
                 self._all_gone(field.type, path + [name])
-- 
2.43.0


From 5cc3493d765939fa4db9c81ff47f3ec160a0ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 40/66] fix: new sections with a default are reported as fields
 without default

---
 hyperstate/schema/schema_checker.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 69ce549..d0eec64 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -1,6 +1,6 @@
 from typing import Callable, List, Optional, Tuple, Any, Type
 import typing
-from dataclasses import is_dataclass
+from dataclasses import is_dataclass, replace
 from pathlib import Path
 import difflib
 
@@ -105,7 +105,7 @@ class SchemaChecker:
             for name, field in new.fields.items():
                 if name not in old.fields:
                     if isinstance(field.type, t.Struct):
-                        self._all_new(field.type, path + [name])
+                        self._all_new(field.type, path + [name], field)
                     else:
                         self.changes.append(
                             FieldAdded(
@@ -128,7 +128,7 @@ class SchemaChecker:
                                 oldfield.has_default,
                             )
                         )
-                        self._all_new(field.type, path + [name])
+                        self._all_new(field.type, path + [name], field)
                     elif isinstance(oldfield.type, t.Struct) and not isinstance(
                         field.type, t.Struct
                     ):
@@ -313,10 +313,16 @@ class SchemaChecker:
             EnumVariantAdded, EnumVariantRemoved, enum_similarity, enum_renamed
         )
 
-    def _all_new(self, struct: t.Struct, path: typing.List[str]) -> None:
+    def _all_new(
+        self, struct: t.Struct, path: typing.List[str], section: t.Field
+    ) -> None:
         for name, field in struct.fields.items():
+            if section.has_default:
+                # The fields have the values of the default of the section
+                default = t.plain_value(section.default)[name]
+                field = replace(field, default=default, has_default=True)
             if isinstance(field.type, t.Struct):
-                self._all_new(field.type, path + [name])
+                self._all_new(field.type, path + [name], field)
             else:
                 self.changes.append(
                     FieldAdded(
-- 
2.43.0


From b2041d0e405ebbc7d83fccb5d3075df1e163e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:22 +0000
Subject: [PATCH 41/66] fix: sections that become optional, or whose default
 changes, are not reported as such

---
 hyperstate/schema/rewrite_rule.py   |  8 +++-
 hyperstate/schema/schema_checker.py | 72 +++++++++++++++++++----------
 2 files changed, 53 insertions(+), 27 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 889f6b3..b77fc7d 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -106,10 +106,14 @@ class ChangeDefault(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert types.plain_value(field.default) == types.plain_value(
+        assert field.effective_default()[0] == types.plain_value(
             self.old_default
         ), f"Default value mismatch"
-        _insert_schema(schema, self.field, replace(field, default=self.new_default))
+        _insert_schema(
+            schema,
+            self.field,
+            replace(field, default=self.new_default, has_default=True),
+        )
 
 
 @dataclass
diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index d0eec64..859256a 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -92,7 +92,15 @@ class SchemaChecker:
                 )
 
     def _find_changes(self, old: t.Type, new: t.Type, path: List[str]) -> None:
-        if old.__class__ != new.__class__:
+        if _is_section(old) and _is_section(new) and old.__class__ != new.__class__:
+            if isinstance(new, t.Option):
+                self.changes.append(TypeChanged(tuple(path), new.type, new))
+                self._find_changes(old, new.type, path)
+            else:
+                assert isinstance(old, t.Option)
+                self.changes.append(TypeChanged(tuple(path), t.Option(new), new))
+                self._find_changes(old.type, new, path)
+        elif old.__class__ != new.__class__:
             self.changes.append(TypeChanged(tuple(path), old, new))
         elif isinstance(old, t.Primitive):
             if old != new:
@@ -117,8 +125,8 @@ class SchemaChecker:
                         )
                 else:
                     oldfield = old.fields[name]
-                    if isinstance(field.type, t.Struct) and not isinstance(
-                        oldfield.type, t.Struct
+                    if isinstance(field.type, t.Struct) and not _is_section(
+                        oldfield.type
                     ):
                         self.changes.append(
                             FieldRemoved(
@@ -129,8 +137,8 @@ class SchemaChecker:
                             )
                         )
                         self._all_new(field.type, path + [name], field)
-                    elif isinstance(oldfield.type, t.Struct) and not isinstance(
-                        field.type, t.Struct
+                    elif isinstance(oldfield.type, t.Struct) and not _is_section(
+                        field.type
                     ):
                         self.changes.append(
                             FieldAdded(
@@ -143,26 +151,7 @@ class SchemaChecker:
                         self._all_gone(oldfield.type, path + [name])
                     else:
                         self._find_changes(oldfield.type, field.type, path + [name])
-                        if oldfield.has_default != field.has_default:
-                            if not field.has_default:
-                                self.changes.append(
-                                    DefaultValueRemoved(
-                                        tuple(path + [name]), oldfield.default
-                                    )
-                                )
-                        elif oldfield.has_default and not t.same_default(
-                            t.plain_value(oldfield.default),
-                            oldfield.type,
-                            t.plain_value(field.default),
-                            field.type,
-                        ):
-                            self.changes.append(
-                                DefaultValueChanged(
-                                    tuple(path + [name]),
-                                    oldfield.default,
-                                    field.default,
-                                )
-                            )
+                        self._find_default_changes(oldfield, field, path + [name])
             # Check for removed fields
             for name, field in old.fields.items():
                 if name not in new.fields:
@@ -234,6 +223,33 @@ class SchemaChecker:
         elif not isinstance(old, t.Nothing):
             raise ValueError(f"Field {'.'.join(path)} has unsupported type {type(old)}")
 
+    def _find_default_changes(
+        self, oldfield: t.Field, field: t.Field, path: List[str]
+    ) -> None:
+        if (
+            not oldfield.has_default
+            and not field.has_default
+            and oldfield.type.__class__ == field.type.__class__
+        ):
+            # Changes to the defaults of the fields of a section are reported for each field
+            return
+        old, had_default = oldfield.effective_default()
+        new, has_default = field.effective_default()
+        if had_default and not has_default:
+            self.changes.append(
+                DefaultValueRemoved(
+                    tuple(path), oldfield.default if oldfield.has_default else old
+                )
+            )
+        elif had_default and not t.same_default(old, oldfield.type, new, field.type):
+            self.changes.append(
+                DefaultValueChanged(
+                    tuple(path),
+                    oldfield.default if oldfield.has_default else old,
+                    field.default if field.has_default else new,
+                )
+            )
+
     def _find_renames(
         self,
         cls_added: Type[TAdded],
@@ -351,6 +367,12 @@ class SchemaChecker:
                 )
 
 
+def _is_section(type: t.Type) -> bool:
+    if isinstance(type, t.Option):
+        type = type.type
+    return isinstance(type, t.Struct)
+
+
 def name_similarity(field1: str, field2: str) -> float:
     # Special cases
     # TODO: fold these into tweaked levenshtein with different costs for different edits
-- 
2.43.0


From a716fdfa79469300f80caac1659c75a80ebf9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:49 +0000
Subject: [PATCH 42/66] fix: renamed enum variants are reported with the new
 name as the old name

---
 hyperstate/schema/schema_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_change.py b/hyperstate/schema/schema_change.py
index b35e896..43600c3 100644
--- a/hyperstate/schema/schema_change.py
+++ b/hyperstate/schema/schema_change.py
@@ -226,7 +226,7 @@ class EnumVariantRenamed(SchemaChange):
         return Severity.INFO
 
     def diagnostic(self) -> str:
-        return f"variant {self.new_variant_name} of {self.enum_name} renamed to {self.new_variant_name}"
+        return f"variant {self.old_variant_name} of {self.enum_name} renamed to {self.new_variant_name}"
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From c659b6e41a12be8ba2227b1ee143e2fc8f7263b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 43/66] fix: the upgraded schema has the default that
 AddDefault made explicit

---
 hyperstate/schema/rewrite_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index b77fc7d..f68a807 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -137,7 +137,8 @@ class AddDefault(RewriteRule):
                 has_default=False,
             )
         else:
-            field = replace(field, default=self.default, has_default=True)
+            # Once the rule has been applied, the field is always specified
+            field = replace(field, default=None, has_default=False)
         _insert_schema(schema, self.field, field)
 
 
-- 
2.43.0


From 8d0fa32e4f10089e01341c719796dbf20389ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:52 +0000
Subject: [PATCH 44/66] fix: changes of the types inside lists and optionals
 propose rules for the wrong value

---
 hyperstate/schema/rewrite_rule.py   |  6 +++++-
 hyperstate/schema/schema_change.py  |  8 +++++++-
 hyperstate/schema/schema_checker.py | 25 +++++++++++++++++++++++--
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index f68a807..90223db 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -165,9 +165,13 @@ class CheckValue(RewriteRule):
         _insert_schema(
             schema,
             self.field,
-            replace(field, type=types.Literal(list(self.allowed_values))),
+            replace(field, type=self._new_type()),
         )
 
+    def _new_type(self) -> types.Type:
+        literal = types.Literal([v for v in self.allowed_values if v is not None])
+        return types.Option(literal) if None in self.allowed_values else literal
+
 
 @dataclass
 class RejectValues(RewriteRule):
diff --git a/hyperstate/schema/schema_change.py b/hyperstate/schema/schema_change.py
index 43600c3..d6c5831 100644
--- a/hyperstate/schema/schema_change.py
+++ b/hyperstate/schema/schema_change.py
@@ -171,6 +171,8 @@ class TypeChanged(SchemaChange):
             )
         elif isinstance(self.new, t.Literal):
             return CheckValue(self.field, set(self.new.allowed_values))
+        elif isinstance(self.new, t.Option) and isinstance(self.new.type, t.Literal):
+            return CheckValue(self.field, {*self.new.type.allowed_values, None})
         else:
             return None
 
@@ -181,11 +183,15 @@ class EnumVariantValueChanged(SchemaChange):
     variant: str
     old_value: typing.Union[str, int]
     new_value: typing.Union[str, int]
+    # Whether the field is a list of enums
+    in_list: bool = False
 
     def diagnostic(self) -> str:
         return f"value of {self.enum_name}.{self.variant} changed from {self.old_value} to {self.new_value}"
 
-    def proposed_fix(self) -> RewriteRule:
+    def proposed_fix(self) -> typing.Optional[RewriteRule]:
+        if self.in_list:
+            return None
         return MapFieldValue(
             self.field,
             lambda x: x if x != self.old_value else self.new_value,
diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 859256a..2584863 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -107,7 +107,7 @@ class SchemaChecker:
                 self.changes.append(TypeChanged(tuple(path), old, new))
         elif isinstance(old, t.List):
             assert isinstance(new, t.List)
-            self._find_changes(old.inner, new.inner, path)
+            self._find_inner_changes(old, new, old.inner, new.inner, path)
         elif isinstance(old, t.Struct):
             assert isinstance(new, t.Struct)
             for name, field in new.fields.items():
@@ -170,7 +170,7 @@ class SchemaChecker:
                         )
         elif isinstance(old, t.Option):
             assert isinstance(new, t.Option)
-            self._find_changes(old.type, new.type, path)
+            self._find_inner_changes(old, new, old.type, new.type, path)
         elif isinstance(old, t.Enum):
             assert isinstance(new, t.Enum)
             for name, value in new.variants.items():
@@ -223,6 +223,27 @@ class SchemaChecker:
         elif not isinstance(old, t.Nothing):
             raise ValueError(f"Field {'.'.join(path)} has unsupported type {type(old)}")
 
+    def _find_inner_changes(
+        self, old: t.Type, new: t.Type, old_inner: t.Type, new_inner: t.Type, path: List[str]
+    ) -> None:
+        first = len(self.changes)
+        self._find_changes(old_inner, new_inner, path)
+        for i, change in enumerate(self.changes[first:], first):
+            # The value of the field is not of the inner type
+            if (
+                isinstance(change, TypeChanged)
+                and change.field == tuple(path)
+                and change.old == old_inner
+                and change.new == new_inner
+            ):
+                self.changes[i] = TypeChanged(tuple(path), old, new)
+            elif (
+                isinstance(change, EnumVariantValueChanged)
+                and change.field == tuple(path)
+                and isinstance(old, t.List)
+            ):
+                self.changes[i] = replace(change, in_list=True)
+
     def _find_default_changes(
         self, oldfield: t.Field, field: t.Field, path: List[str]
     ) -> None:
-- 
2.43.0


From 6306f07a0eab328c9e640741ed894f343091a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 45/66] fix: a rule that can not work is proposed for changed
 values of lists of enums

---
 hyperstate/schema/schema_checker.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 2584863..62a85d1 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -1,4 +1,4 @@
-from typing import Callable, List, Optional, Tuple, Any, Type
+from typing import Callable, List, Optional, Sequence, Tuple, Any, Type
 import typing
 from dataclasses import is_dataclass, replace
 from pathlib import Path
@@ -51,6 +51,13 @@ class SchemaChecker:
         self._find_changes(old, self.new, [])
         self._find_field_renames()
         self._find_enum_variant_renames()
+        self.changes = [
+            replace(change, in_list=True)
+            if isinstance(change, EnumVariantValueChanged)
+            and _has_list_type(self.new, change.field)
+            else change
+            for change in self.changes
+        ]
         for change in self.changes:
             proposed_fix = change.proposed_fix()
             if proposed_fix is not None:
@@ -237,12 +244,6 @@ class SchemaChecker:
                 and change.new == new_inner
             ):
                 self.changes[i] = TypeChanged(tuple(path), old, new)
-            elif (
-                isinstance(change, EnumVariantValueChanged)
-                and change.field == tuple(path)
-                and isinstance(old, t.List)
-            ):
-                self.changes[i] = replace(change, in_list=True)
 
     def _find_default_changes(
         self, oldfield: t.Field, field: t.Field, path: List[str]
@@ -388,6 +389,16 @@ class SchemaChecker:
                 )
 
 
+def _has_list_type(schema: t.Type, path: Sequence[str]) -> bool:
+    for name in path:
+        schema = t._unwrap_container_type(schema)
+        assert isinstance(schema, t.Struct)
+        schema = schema.fields[name].type
+    while isinstance(schema, t.Option):
+        schema = schema.type
+    return isinstance(schema, t.List)
+
+
 def _is_section(type: t.Type) -> bool:
     if isinstance(type, t.Option):
         type = type.type
-- 
2.43.0


From 9c5ec7dd93c3dd76c70ceca4e4de878e03858717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 46/66] fix: MapFieldValue does not map optional enums and
 defaults of the recorded schema

---
 hyperstate/schema/rewrite_rule.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 90223db..0f4f918 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -71,18 +71,26 @@ class MapFieldValue(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        if isinstance(field.type, types.Enum):
+        enum = field.type
+        while isinstance(enum, types.Option):
+            enum = enum.type
+        if isinstance(enum, types.Enum):
+            default = types.plain_value(field.default)
             _insert_schema(
                 schema,
                 self.field,
                 replace(
                     field,
-                    type=replace(
+                    type=_replace_inner_type(
                         field.type,
-                        variants={
-                            k: self.map_fn(v) for k, v in field.type.variants.items()
-                        },
+                        replace(
+                            enum,
+                            variants={
+                                k: self.map_fn(v) for k, v in enum.variants.items()
+                            },
+                        ),
                     ),
+                    default=default if default is None else self.map_fn(default),
                 ),
             )
         else:
-- 
2.43.0


From 2bbf67846a7c21f0349d2482feaafaf781c5bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 47/66] fix: proposed rules map the values of an enum twice or
 before they are set to a default

---
 hyperstate/schema/schema_checker.py | 33 ++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 62a85d1..78b9915 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -24,6 +24,7 @@ from hyperstate.schema.schema_change import (
     Severity,
     TypeChanged,
 )
+from hyperstate.schema.rewrite_rule import MapFieldValue, RewriteRule
 from hyperstate.schema.versioned import Versioned
 from .types import load_schema, materialize_type
 from . import types as t
@@ -47,7 +48,6 @@ class SchemaChecker:
             config_clz._apply_schema_upgrades(old)
         self.old = old
         self.changes: List[SchemaChange] = []
-        self.proposed_fixes = []
         self._find_changes(old, self.new, [])
         self._find_field_renames()
         self._find_enum_variant_renames()
@@ -58,10 +58,37 @@ class SchemaChecker:
             else change
             for change in self.changes
         ]
+        self.proposed_fixes = self._propose_fixes()
+
+    def _propose_fixes(self) -> List[RewriteRule]:
+        fixes: List[RewriteRule] = []
+        # Values are mapped after they have been set to the default of the old schema
+        value_changes: typing.Dict[Sequence[str], List[EnumVariantValueChanged]] = {}
         for change in self.changes:
             proposed_fix = change.proposed_fix()
-            if proposed_fix is not None:
-                self.proposed_fixes.append(proposed_fix)
+            if proposed_fix is None:
+                continue
+            if isinstance(change, EnumVariantValueChanged):
+                value_changes.setdefault(change.field, []).append(change)
+            else:
+                fixes.append(proposed_fix)
+        for field, changes in value_changes.items():
+            mapping = {change.old_value: change.new_value for change in changes}
+            if mapping.keys() & mapping.values():
+                # The rules for the individual values would map some values twice
+                fixes.append(
+                    MapFieldValue(
+                        field,
+                        lambda x, mapping=mapping: mapping.get(x, x),  # type: ignore
+                        rendered=f"lambda x: {mapping}.get(x, x)",
+                    )
+                )
+            else:
+                for change in changes:
+                    proposed_fix = change.proposed_fix()
+                    assert proposed_fix is not None
+                    fixes.append(proposed_fix)
+        return fixes
 
     def severity(self) -> Severity:
         max_severity = Severity.INFO
-- 
2.43.0


From 7f108371a794c682c0e8238d9105202aac905457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:34 +0000
Subject: [PATCH 48/66] fix: fields moved into or out of lists and optional
 sections are reported as renamed

---
 hyperstate/schema/schema_checker.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 78b9915..2a1ebb9 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -338,7 +338,9 @@ class SchemaChecker:
             added: FieldAdded, removed: FieldRemoved
         ) -> Optional[float]:
             if (
-                removed.type.is_subtype(added.type)
+                _section_path(self.old, removed.field)
+                == _section_path(self.new, added.field)
+                and removed.type.is_subtype(added.type)
                 and removed.has_default == added.has_default
                 and removed.default == added.default
             ):
@@ -416,6 +418,20 @@ class SchemaChecker:
                 )
 
 
+def _section_path(schema: t.Type, path: Sequence[str]) -> Sequence[str]:
+    """
+    Returns the path of the innermost list or optional that contains the field at `path`.
+    """
+    result: Sequence[str] = ()
+    for i, name in enumerate(path):
+        if isinstance(schema, (t.List, t.Option)):
+            result = path[:i]
+        schema = t._unwrap_container_type(schema)
+        assert isinstance(schema, t.Struct)
+        schema = schema.fields[name].type
+    return result
+
+
 def _has_list_type(schema: t.Type, path: Sequence[str]) -> bool:
     for name in path:
         schema = t._unwrap_container_type(schema)
-- 
2.43.0


From 7d74af9efe8bf7b5a031f209ee0fb2ed936ebc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 49/66] fix: upgrade rules are not applied to sections in lists

---
 hyperstate/schema/rewrite_rule.py | 46 ++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 0f4f918..3efe846 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -25,7 +25,13 @@ class RenameField(RewriteRule):
     new_field: Sequence[str]
 
     def apply(self, state_dict: Any) -> Any:
-        # TODO: handle lists
+        for element, rest in _list_elements(state_dict, self.old_field):
+            prefix = len(self.old_field) - len(rest)
+            if (
+                len(self.new_field) > prefix
+                and self.old_field[:prefix] == self.new_field[:prefix]
+            ):
+                RenameField(rest, self.new_field[prefix:]).apply(element)
         weak = _is_weak(state_dict, self.old_field)
         value, ok = _remove(state_dict, self.old_field)
         if (
@@ -47,6 +53,8 @@ class DeleteField(RewriteRule):
     field: Sequence[str]
 
     def apply(self, state_dict: Any) -> Any:
+        for element, rest in _list_elements(state_dict, self.field):
+            replace(self, field=rest).apply(element)
         _remove(state_dict, self.field)
         return state_dict
 
@@ -61,6 +69,8 @@ class MapFieldValue(RewriteRule):
     rendered: Optional[str] = None
 
     def apply(self, state_dict: Any) -> Any:
+        for element, rest in _list_elements(state_dict, self.field):
+            replace(self, field=rest).apply(element)
         path = self.field
         value, present = _get(state_dict, path)
         if present and not _is_weak_section(value):
@@ -104,6 +114,8 @@ class ChangeDefault(RewriteRule):
     new_default: Any
 
     def apply(self, state_dict: Any) -> Any:
+        for element, rest in _list_elements(state_dict, self.field):
+            replace(self, field=rest).apply(element)
         existing_value, ok = _get(state_dict, self.field)
         if not ok or _is_weak_section(existing_value):
             _insert(
@@ -130,6 +142,8 @@ class AddDefault(RewriteRule):
     default: Any
 
     def apply(self, state_dict: Any) -> Any:
+        for element, rest in _list_elements(state_dict, self.field):
+            replace(self, field=rest).apply(element)
         value, present = _get(state_dict, self.field)
         if not present or _is_weak_section(value):
             _insert(state_dict, self.field, deepcopy(self.default), create_new=False)
@@ -156,6 +170,8 @@ class CheckValue(RewriteRule):
     allowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
+        for element, rest in _list_elements(state_dict, self.field):
+            replace(self, field=rest).apply(element)
         value, present = _get(state_dict, self.field)
         if (
             present
@@ -187,6 +203,8 @@ class RejectValues(RewriteRule):
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
+        for element, rest in _list_elements(state_dict, self.field):
+            replace(self, field=rest).apply(element)
         value, present = _get(state_dict, self.field)
         if present and value in list(self.disallowed_values):
             raise ValueError(
@@ -257,6 +275,32 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     return state_dict[path[-1]], True
 
 
+def _list_elements(
+    state_dict: Any, path: Sequence[str]
+) -> List[Tuple[Dict[str, Any], Sequence[str]]]:
+    """
+    Returns the sections in the first list on the way to the field at `path`, and the
+    remaining path within each of them.
+    """
+    for i, field in enumerate(path[:-1]):
+        if not isinstance(state_dict, dict) or field not in state_dict:
+            break
+        state_dict = state_dict[field]
+        if isinstance(state_dict, list):
+            return [(element, path[i + 1 :]) for element in _flatten(state_dict)]
+    return []
+
+
+def _flatten(values: List[Any]) -> List[Dict[str, Any]]:
+    elements = []
+    for value in values:
+        if isinstance(value, list):
+            elements.extend(_flatten(value))
+        elif isinstance(value, dict):
+            elements.append(value)
+    return elements
+
+
 def _insert(
     state_dict: Any,
     path: Sequence[str],
-- 
2.43.0


From 3ecb7730c61f403388966055e00b50567e7e317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 50/66] fix: renamed fields with lists of enums as default are
 not recognized as renamed

---
 hyperstate/schema/schema_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 2a1ebb9..a0e6b93 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -342,7 +342,7 @@ class SchemaChecker:
                 == _section_path(self.new, added.field)
                 and removed.type.is_subtype(added.type)
                 and removed.has_default == added.has_default
-                and removed.default == added.default
+                and t.plain_value(removed.default) == t.plain_value(added.default)
             ):
                 return name_similarity(removed.field[-1], added.field[-1])
             return None
-- 
2.43.0


From 8870c2a32767e1a2a6310a51019a0523d7499b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:50 +0000
Subject: [PATCH 51/66] fix: old defaults of absent optional sections are
 rejected

---
 hyperstate/schema/rewrite_rule.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 3efe846..34294de 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -175,7 +175,7 @@ class CheckValue(RewriteRule):
         value, present = _get(state_dict, self.field)
         if (
             present
-            and not _is_weak_section(value)
+            and not _is_weak(state_dict, self.field)
             and value not in list(self.allowed_values)
         ):
             raise ValueError(
@@ -206,7 +206,11 @@ class RejectValues(RewriteRule):
         for element, rest in _list_elements(state_dict, self.field):
             replace(self, field=rest).apply(element)
         value, present = _get(state_dict, self.field)
-        if present and value in list(self.disallowed_values):
+        if (
+            present
+            and not _is_weak(state_dict, self.field)
+            and value in list(self.disallowed_values)
+        ):
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
             )
-- 
2.43.0


From e7af29637e9de7915b9adc7d19a8b1612d566562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:52 +0000
Subject: [PATCH 52/66] fix: upgrade-config does not close the files it writes

---
 hyperstate/schema/schema_checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index a0e6b93..8b02bf5 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -521,7 +521,8 @@ def _upgrade_config(
         config, elide_defaults=elide_defaults, schedules=schedules
     )
     if dry_run:
-        original_config = open(filename).read()
+        with open(filename) as f:
+            original_config = f.read()
         diff = difflib.unified_diff(
             original_config.splitlines(),
             upgraded_config.splitlines(),
@@ -536,7 +537,8 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        open(filename, "w").write(upgraded_config)
+        with open(filename, "w") as f:
+            f.write(upgraded_config)
 
 
 CONFIG_CLZ: typing.Type[Any] = None  # type: ignore
-- 
2.43.0


From 4433035359d03f410c88b2bc036bbd1c8214383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:54 +0000
Subject: [PATCH 53/66] fix: new fields with a default are reported as new
 fields without default

---
 hyperstate/schema/schema_change.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_change.py b/hyperstate/schema/schema_change.py
index d6c5831..6173b3d 100644
--- a/hyperstate/schema/schema_change.py
+++ b/hyperstate/schema/schema_change.py
@@ -94,6 +94,8 @@ class FieldAdded(SchemaChange):
         return None
 
     def diagnostic(self) -> str:
+        if self.has_default:
+            return "new field"
         return "new field without default value"
 
 
-- 
2.43.0


From 0aa9c13b639b0ea7634d65ff5a25a895263563dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 54/66] fix: proposed MapFieldValue rules are printed in a form
 that can not be used

---
 hyperstate/schema/rewrite_rule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 34294de..19bf44a 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -68,6 +68,10 @@ class MapFieldValue(RewriteRule):
     map_fn: Callable[[Any], Any]
     rendered: Optional[str] = None
 
+    def __repr__(self) -> str:
+        map_fn = self.rendered or repr(self.map_fn)
+        return f"MapFieldValue(field={self.field!r}, map_fn={map_fn})"
+
     def apply(self, state_dict: Any) -> Any:
         for element, rest in _list_elements(state_dict, self.field):
             replace(self, field=rest).apply(element)
-- 
2.43.0


From 38a2451707794cadb23a3bbfdb68765e37aca187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:23 +0000
Subject: [PATCH 55/66] fix: proposed rules for defaults with enums or sections
 are printed in a form that can not be used

---
 hyperstate/schema/rewrite_rule.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 19bf44a..438f83b 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -117,6 +117,11 @@ class ChangeDefault(RewriteRule):
     old_default: Any
     new_default: Any
 
+    def __repr__(self) -> str:
+        old = types.plain_value(self.old_default)
+        new = types.plain_value(self.new_default)
+        return f"ChangeDefault(field={self.field!r}, old_default={old!r}, new_default={new!r})"
+
     def apply(self, state_dict: Any) -> Any:
         for element, rest in _list_elements(state_dict, self.field):
             replace(self, field=rest).apply(element)
@@ -145,6 +150,10 @@ class AddDefault(RewriteRule):
     field: Sequence[str]
     default: Any
 
+    def __repr__(self) -> str:
+        default = types.plain_value(self.default)
+        return f"AddDefault(field={self.field!r}, default={default!r})"
+
     def apply(self, state_dict: Any) -> Any:
         for element, rest in _list_elements(state_dict, self.field):
             replace(self, field=rest).apply(element)
-- 
2.43.0


From 77713d45e9de1388fb08eabdba4b65e2dfca78a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:14 +0000
Subject: [PATCH 56/66] fix: overrides of fields of a section which an earlier
 override sets to an empty struct are lost

---
 hyperstate/hyperstate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 45fc333..5f154cf 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -479,6 +479,8 @@ class OverridesDeserializer(Deserializer):
         overrides = self.pending.pop(path, [])
         if is_dataclass(value):
             value = {f: getattr(value, f) for f in value.__dataclass_fields__}
+        elif len(overrides) > 0 and value == ():
+            value = {}
         if len(overrides) == 0 or not isinstance(value, dict):
             return None, False, False
         for fpath, val in overrides:
-- 
2.43.0


From 6300e2d54d95a046aeca98e44e952ab55de89bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:16 +0000
Subject: [PATCH 57/66] fix: help shows the documentation of the base class for
 fields that a subclass documents

---
 hyperstate/schema/types.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index d02fc8d..178e413 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -451,11 +451,10 @@ def _unwrap_container_type(type: Type) -> Type:
 
 
 def _find_all_field_docs(clz: typing.Type[Any]) -> typing.Dict[str, str]:
-    docs = docstring_parser.parse(clz.__doc__ or "")
-    field_docs = {
-        f.arg_name: f.description for f in docs.params if f.description is not None
-    }
-    if hasattr(clz, "__bases__"):
-        for base in clz.__bases__:
-            field_docs.update(_find_all_field_docs(base))
+    field_docs = {}
+    for base in reversed(clz.__mro__):
+        docs = docstring_parser.parse(base.__doc__ or "")
+        field_docs.update(
+            {f.arg_name: f.description for f in docs.params if f.description is not None}
+        )
     return field_docs
-- 
2.43.0


From c910ab95342d25e19d46d2f185f925e498ef5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:17 +0000
Subject: [PATCH 58/66] fix: help shows fields with default None like fields
 without default

---
 hyperstate/schema/help.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index a6d1361..cd71e5a 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -50,7 +50,7 @@ def help(config_clz: Type[Any], query: str = "") -> None:
                     + style(": ", fg="white")
                     + style(str(field.type), fg="green")
                 )
-                if field.default is not None:
+                if field.has_default:
                     line += style(" = ", fg="white") + style(
                         repr(field.default), fg="yellow"
                     )
@@ -77,7 +77,7 @@ def print_schema(schema: t.Struct, depth: int = 0, recurse: bool = True) -> None
             continue
         else:
             line += style(f.type, fg="green")
-        if f.default is not None:
+        if f.has_default:
             line += style(" = ", fg="white") + style(repr(f.default), fg="yellow")
         if line != "":
             if f.docstring is not None:
-- 
2.43.0


From 87afdb588f8b7e534e93f30d08ae3005e03be8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:19 +0000
Subject: [PATCH 59/66] fix: help does not find fields of optional sections and
 lists of sections

---
 hyperstate/schema/help.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index cd71e5a..abb0321 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -95,6 +95,7 @@ def find_fields(
     result = []
     for f in schema.fields.values():
         result.append((path or [], name_similarity(f.name, query), f))
-        if isinstance(f.type, t.Struct):
-            result.extend(find_fields(f.type, query, (path or []) + [f.name]))
+        unwrapped = _unwrap_container_type(f.type)
+        if isinstance(unwrapped, t.Struct):
+            result.extend(find_fields(unwrapped, query, (path or []) + [f.name]))
     return result
-- 
2.43.0


From cf36c1de0febd7983cc70882ebd6cb78b9879f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:33 +0000
Subject: [PATCH 60/66] fix: help shows the wrong defaults for fields of
 sections with their own default

---
 hyperstate/schema/help.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index abb0321..8710fc1 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -1,3 +1,5 @@
+from dataclasses import is_dataclass, replace
+import enum
 from typing import Any, List, Optional, Tuple, Type
 from click import style, unstyle
 from hyperstate.schema.schema_checker import name_similarity
@@ -29,8 +31,8 @@ def help(config_clz: Type[Any], query: str = "") -> None:
                 )
             ):
                 break
-            unwrapped = _unwrap_container_type(field.type)
-            if isinstance(unwrapped, t.Struct):
+            section = _section(field)
+            if section is not None:
                 line = (
                     style(".".join(path + [field.name]), fg="cyan")
                     + style(":", fg="white")
@@ -39,7 +41,7 @@ def help(config_clz: Type[Any], query: str = "") -> None:
                 )
                 if similarity >= 1.0:
                     print(line)
-                    print_schema(unwrapped, depth=1, recurse=False)
+                    print_schema(section, depth=1, recurse=False)
                     last_similarity = similarity
                     continue
             else:
@@ -67,13 +69,13 @@ def help(config_clz: Type[Any], query: str = "") -> None:
 def print_schema(schema: t.Struct, depth: int = 0, recurse: bool = True) -> None:
     for f in schema.fields.values():
         line = "  " * depth + style(f.name, fg="cyan") + style(":", fg="white") + " "
-        unwrapped = _unwrap_container_type(f.type)
-        if isinstance(unwrapped, t.Struct):
+        section = _section(f)
+        if section is not None:
             line += style(str(f.type), fg="green")
             print(line)
             line = ""
             if recurse:
-                print_schema(unwrapped, depth + 1)
+                print_schema(section, depth + 1)
             continue
         else:
             line += style(f.type, fg="green")
@@ -95,7 +97,25 @@ def find_fields(
     result = []
     for f in schema.fields.values():
         result.append((path or [], name_similarity(f.name, query), f))
-        unwrapped = _unwrap_container_type(f.type)
-        if isinstance(unwrapped, t.Struct):
-            result.extend(find_fields(unwrapped, query, (path or []) + [f.name]))
+        section = _section(f)
+        if section is not None:
+            result.extend(find_fields(section, query, (path or []) + [f.name]))
     return result
+
+
+def _section(field: t.Field) -> Optional[t.Struct]:
+    """
+    Returns the schema of a nested section, with the defaults its fields have in `field`.
+    """
+    section = _unwrap_container_type(field.type)
+    if not isinstance(section, t.Struct):
+        return None
+    if not is_dataclass(field.default):
+        return section
+    fields = {}
+    for name, f in section.fields.items():
+        default = getattr(field.default, name)
+        if isinstance(default, enum.Enum):
+            default = default.value
+        fields[name] = replace(f, default=default, has_default=True)
+    return replace(section, fields=fields)
-- 
2.43.0


From b0e608f33a0946ae78ea4fab6113ee03c3c3a555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:49 +0000
Subject: [PATCH 61/66] fix: a process that opens a checkpoint directory while
 another process makes a step may start from scratch

---
 hyperstate/hyperstate.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 5f154cf..1e196d3 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -394,14 +394,16 @@ def find_latest_checkpoint(dir: Path, checkpoint_key: str) -> Optional[Path]:
 def _automatic_checkpoints(dir: Path, checkpoint_key: str) -> List[Tuple[int, Path]]:
     checkpoints = []
     prefix = f"latest-{checkpoint_key}"
-    for d in dir.iterdir():
-        if d.name.startswith(prefix) and d.is_dir():
-            try:
-                val = int(d.name[len(prefix) :])
-            except ValueError:
-                continue
-            if d.name == f"{prefix}{val:012}":
-                checkpoints.append((val, d))
+    with os.scandir(dir) as entries:
+        for d in entries:
+            # Does not access `d`, which another process may just have removed
+            if d.name.startswith(prefix) and d.is_dir():
+                try:
+                    val = int(d.name[len(prefix) :])
+                except ValueError:
+                    continue
+                if d.name == f"{prefix}{val:012}":
+                    checkpoints.append((val, dir / d.name))
     return checkpoints
 
 
-- 
2.43.0


From 6e45e1d3880d61dcc71ebb0ad310805466294588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:45 +0000
Subject: [PATCH 62/66] fix: Literal fields accepted values that only compare
 equal to a declared one (true or 1.0 for 1)

---
 hyperstate/serde.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 1ad8b4a..981119e 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -288,11 +288,12 @@ def from_dict(
         if isnamedtupleinstance(value) and len(value._fields) == 0:
             value = value.__class__.__name__
         args = typing.get_args(clz)
-        if value not in args:
-            raise DeserializeValueError(
-                f"{fpath} must be one of {args} but got '{value}'."
-            )
-        return value  # type: ignore
+        for arg in args:
+            if arg == value and isinstance(arg, bool) == isinstance(value, bool):
+                return arg  # type: ignore
+        raise DeserializeValueError(
+            f"{fpath} must be one of {args} but got '{value}'."
+        )
     if isinstance(value, dict) and "!__name__" in value:
         fields = {k: v for k, v in value.items() if k != "!__name__"}
         value = namedtuple(value["!__name__"], fields.keys())(**fields)
-- 
2.43.0


From 0ffb37ae89e7005e0e38397f4d6f597e9d29f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:48 +0000
Subject: [PATCH 63/66] fix: values of unions were elided if they only compared
 equal to the default (true and 1)

---
 hyperstate/hyperstate.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1e196d3..f8f2d4f 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -6,10 +6,12 @@ import shutil
 from abc import ABC, abstractmethod
 from pathlib import Path
 import tempfile
+import typing
 from typing import (
     Callable,
     Generic,
     List,
+    Literal,
     Any,
     Optional,
     Type,
@@ -613,6 +615,9 @@ class ElideDefaults(Serializer):
         self, value: Any, attrs: Dict[str, Any], path: str
     ) -> None:
         for name, field in value.__class__.__dataclass_fields__.items():
+            # Equal numbers of different types (`1` and `True`) may be different members of a union
+            if _has_alternatives(field.type) and not _is_default(field, attrs[name]):
+                continue
             if field.default is not MISSING and attrs[name] == field.default:
                 del attrs[name]
             elif (
@@ -622,6 +627,26 @@ class ElideDefaults(Serializer):
                 del attrs[name]
 
 
+def _has_alternatives(clz: Any) -> bool:
+    if typing.get_origin(clz) is Literal:
+        return True
+    args = [arg for arg in typing.get_args(clz) if arg is not type(None)]
+    if typing.get_origin(clz) is Union and len(args) > 1:
+        return True
+    return any(_has_alternatives(arg) for arg in args)
+
+
+def _is_default(field: Any, value: Any) -> bool:
+    """
+    Returns whether `value` is the default of `field` and contains the same types.
+    """
+    if field.default is not MISSING:
+        return repr(value) == repr(field.default)
+    elif field.default_factory is not MISSING:
+        return repr(value) == repr(field.default_factory())
+    return False
+
+
 def atomic_move(src: str, dst: str) -> None:
     """Rename a file from ``src`` to ``dst``.
 
-- 
2.43.0


From bf412b0e0e95db95f9ef74072c1bc70651aac691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:48 +0000
Subject: [PATCH 64/66] fix: StateManager took configs of versioned classes
 without version to be current

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index f8f2d4f..73ff6e8 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -177,7 +177,7 @@ class StateManager(Generic[C, S]):
             file=path,
             overrides=self.overrides or [],
             allow_missing_version=path is None
-            or not isinstance(self.config_cls, Versioned),
+            or not issubclass(self.config_cls, Versioned),
             ignore_extra_fields=self.ignore_extra_fields,
         )
 
-- 
2.43.0


From e16020510a93f646141d276d7a5d4d3fc4cc5df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 65/66] fix: literals of true/false and 1/0 were taken to be
 the same by the schema checker

---
 hyperstate/schema/schema_checker.py | 4 ++--
 hyperstate/schema/types.py          | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 8b02bf5..3ac6e8e 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -235,7 +235,7 @@ class SchemaChecker:
                     )
         elif isinstance(old, t.Literal):
             assert isinstance(new, t.Literal)
-            new_values = set(new.allowed_values) - set(old.allowed_values)
+            new_values = new.values_missing_in(old)
             if new_values:
                 self.changes.append(
                     LiteralValuesAdded(
@@ -243,7 +243,7 @@ class SchemaChecker:
                         new_values,
                     )
                 )
-            removed_values = set(old.allowed_values) - set(new.allowed_values)
+            removed_values = old.values_missing_in(new)
             if removed_values:
                 self.changes.append(
                     LiteralValuesRemoved(
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 178e413..15f6fb8 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -186,7 +186,7 @@ class Literal:
         return (
             (
                 isinstance(other, Literal)
-                and all(v in other.allowed_values for v in self.allowed_values)
+                and len(self.values_missing_in(other)) == 0
             )
             or (
                 isinstance(other, Primitive)
@@ -206,7 +206,12 @@ class Literal:
     def __eq__(self, other: Any) -> bool:
         if other.__class__ is not self.__class__:
             return NotImplemented
-        return set(self.allowed_values) == set(other.allowed_values)
+        return not self.values_missing_in(other) and not other.values_missing_in(self)
+
+    def values_missing_in(self, other: "Literal") -> typing.Set[Any]:
+        # `True == 1`, but a config with one of them is not valid for the other
+        known = [(isinstance(v, bool), v) for v in other.allowed_values]
+        return {v for v in self.allowed_values if (isinstance(v, bool), v) not in known}
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From 014829ba8579c49debe4e7920ea1cf8b4c612e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:36 +0000
Subject: [PATCH 66/66] fix: text files were written and read in the encoding
 of the locale

---
 hyperstate/schema/schema_checker.py | 6 +++---
 hyperstate/serde.py                 | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 3ac6e8e..5ff8b02 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -494,7 +494,7 @@ def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
     serialized = serde.to_ron(
         serde.asdict(materialize_type(type), named_tuples=True)
     )
-    with open(filename, "w") as f:
+    with open(filename, "w", encoding="utf-8") as f:
         f.write(serialized)
 
 
@@ -521,7 +521,7 @@ def _upgrade_config(
         config, elide_defaults=elide_defaults, schedules=schedules
     )
     if dry_run:
-        with open(filename) as f:
+        with open(filename, encoding="utf-8") as f:
             original_config = f.read()
         diff = difflib.unified_diff(
             original_config.splitlines(),
@@ -537,7 +537,7 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding="utf-8") as f:
             f.write(upgraded_config)
 
 
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 981119e..afa1ed0 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -395,7 +395,7 @@ def dump(
     serializers: Optional[List[Serializer]] = None,
 ) -> str:
     serialized = dumps(obj, serializers)
-    with open(file, "w") as f:
+    with open(file, "w", encoding="utf-8") as f:
         f.write(serialized)
     return serialized
 
-- 
2.43.0

