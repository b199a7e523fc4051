From 75a0bbf3dba2e4f9307cec0f946f57188febf418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 01/54] fix: report values that are not iterable as
 ConversionError in CollectionConverter

---
 databind/src/databind/json/converters.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e04df80..d0f778e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -143,22 +143,21 @@ class CollectionConverter(Converter):
             def _length_check() -> None:
                 pass
 
-        values: t.Iterable[t.Any] = (
-            ctx.spawn(val, item_type, idx).convert()
-            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator))
-        )
+        def _convert_items() -> t.Iterator[t.Any]:
+            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator)):
+                yield ctx.spawn(val, item_type, idx).convert()
 
         if ctx.direction == Direction.SERIALIZE:
             if not isinstance(ctx.value, python_type):
                 raise ConversionError.expected(self, ctx, python_type)
             _length_check()
-            return self.json_collection_type(values)  # type: ignore[call-arg]
+            return self.json_collection_type(_convert_items())  # type: ignore[call-arg]
 
         else:
             if not isinstance(ctx.value, t.Collection) or isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                 raise ConversionError.expected(self, ctx, t.Collection)
             _length_check()
-            values = list(values)
+            values = list(_convert_items())
             if python_type == list:
                 return values
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
-- 
2.43.0


From bafa9eff220cf4808c2aabc617cc318e72688bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 02/54] fix: raise ValueError instead of AssertionError for
 floats that are not integral

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d0f778e..b4637d9 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -42,7 +42,8 @@ T = t.TypeVar("T")
 def _int_lossless(v: float) -> int:
     """Convert *v* to an integer only if the conversion is lossless, otherwise raise an error."""
 
-    assert v % 1.0 == 0.0, f"expected int, got {v!r}"
+    if v % 1.0 != 0.0:  # This also catches NaN and infinities.
+        raise ValueError(f"expected int, got {v!r}")
     return int(v)
 
 
-- 
2.43.0


From d14260d34074395dc0b57c98ee304838b36661bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 03/54] fix: convert falsy keywords to False in non-strict mode

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index b4637d9..c818dfe 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -53,7 +53,7 @@ def _bool_from_str(s: str) -> bool:
     if s.lower() in ("yes", "true", "on", "enabled"):
         return True
     if s.lower() in ("no", "false", "off", "disabled"):
-        return True
+        return False
     raise ValueError(f"not a truthy keyword: {s!r}")
 
 
-- 
2.43.0


From 15c63ec5050ccd28b663f3b8a5865986dca5a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 04/54] fix: report integers too large for a float as
 ConversionError

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c818dfe..9de4bfb 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -434,7 +434,7 @@ class PlainDatatypeConverter(Converter):
 
         try:
             return adapter(ctx.value)
-        except ValueError as exc:
+        except (ValueError, OverflowError) as exc:
             raise ConversionError(self, ctx, str(exc)) from exc
 
 
-- 
2.43.0


From 113b8cf64ba0616b8e3ea6130f24f56821614646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 05/54] fix: report malformed decimal strings as
 ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 9de4bfb..374eadb 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -237,7 +237,10 @@ class DecimalConverter(Converter):
 
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
-                return decimal.Decimal(ctx.value, context)
+                try:
+                    return decimal.Decimal(ctx.value, context)
+                except decimal.InvalidOperation:
+                    raise ConversionError(self, ctx, f"not a valid decimal number: {ctx.value!r}")
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-- 
2.43.0


From 98d10abfe50208fd4a20948381a9217848cce074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 06/54] fix: do not decode strings when serializing bytes and
 the reverse

---
 databind/src/databind/json/converters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 374eadb..80cf8de 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -431,6 +431,9 @@ class PlainDatatypeConverter(Converter):
         )
         adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
         adapter = adapters.get((source_type, target_type))
+        if target_type is bytes and (source_type is bytes) != ctx.direction.is_serialize():
+            # Bytes are encoded only during serialization and strings are decoded only during deserialization.
+            adapter = None
 
         if adapter is None:
             raise ConversionError.expected(self, ctx, target_type, source_type)
-- 
2.43.0


From 48ae14b3ac614c787ba994d95e1cf64a09a0de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 07/54] fix: respect Union.nesting_key during serialization

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 80cf8de..3521e6a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -847,7 +847,7 @@ class UnionConverter(Converter):
             self._check_style_compatibility(ctx, style, result)
             # Bring the serialized value into shape.
             if style == Union.NESTED:
-                result = {discriminator_key: member_name, member_name: result}
+                result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
                 result[discriminator_key] = member_name
-- 
2.43.0


From 2e19c43ac1e581ce6f33b53a2d6ee7f8fbea86da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 08/54] fix: report types and IDs that are not members of a
 union as ConversionError

---
 databind/src/databind/json/converters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 3521e6a..c5361c4 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -809,11 +809,17 @@ class UnionConverter(Converter):
             if not isinstance(ctx.value, t.Mapping):
                 raise ConversionError.expected(self, ctx, t.Mapping)
             member_name = self._get_deserialize_member_name(ctx, ctx.value, style, discriminator_key)
-            member_type = union.members.get_type_by_id(member_name)
+            try:
+                member_type = union.members.get_type_by_id(member_name)
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
 
         else:
             # Identify the member type based on the Python value type.
-            member_name = union.members.get_type_id(type(ctx.value))
+            try:
+                member_name = union.members.get_type_id(type(ctx.value))
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
             member_type = union.members.get_type_by_id(member_name)
 
         nesting_key = union.nesting_key or member_name
-- 
2.43.0


From 00af278922f1334b327947bb0175b5252fe89dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 09/54] fix: tell booleans from numbers when matching literals

---
 databind/src/databind/json/converters.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c5361c4..334758c 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -877,11 +877,13 @@ class LiteralConverter(Converter):
         if not isinstance(ctx.datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        if ctx.value not in ctx.datatype.values:
-            raise ConversionError(
-                self,
-                ctx,
-                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, ctx.datatype.values))}",
-            )
-
-        return ctx.value
+        for literal in ctx.datatype.values:
+            # A boolean is not the same literal as the integer (or float) that it is equal to.
+            if ctx.value == literal and isinstance(ctx.value, bool) == isinstance(literal, bool):
+                return literal
+
+        raise ConversionError(
+            self,
+            ctx,
+            f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, ctx.datatype.values))}",
+        )
-- 
2.43.0


From e7216cfd48866bcf3607c5b0082fa5b6b2ec6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 10/54] fix: accept Annotated hints around literals, plain
 unions and types with classmethod converters

---
 databind/src/databind/core/converter.py  | 20 +++++++++++++-------
 databind/src/databind/json/converters.py | 21 ++++++++++-----------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/databind/src/databind/core/converter.py b/databind/src/databind/core/converter.py
index 3696ab9..23875d5 100644
--- a/databind/src/databind/core/converter.py
+++ b/databind/src/databind/core/converter.py
@@ -3,7 +3,7 @@ import logging
 import typing as t
 from textwrap import indent
 
-from typeapi import ClassTypeHint, type_repr
+from typeapi import AnnotatedTypeHint, ClassTypeHint, TypeHint, type_repr
 
 from databind.core.utils import exception_safe_str
 
@@ -165,18 +165,24 @@ class DelegateToClassmethodConverter(Converter):
         self._serialize = serialize
         self._deserialize = deserialize
 
+    @staticmethod
+    def _get_datatype(ctx: "Context") -> TypeHint:
+        return ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+
     def serialize(self, ctx: "Context") -> t.Any:
-        if self._serialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = self._get_datatype(ctx)
+        if self._serialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
-        if not isinstance(ctx.value, ctx.datatype.type):
-            raise ConversionError.expected(self, ctx, ctx.datatype.type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._serialize)
+        if not isinstance(ctx.value, datatype.type):
+            raise ConversionError.expected(self, ctx, datatype.type)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._serialize)
         return method(ctx.value)
 
     def deserialize(self, ctx: "Context") -> t.Any:
-        if self._deserialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = self._get_datatype(ctx)
+        if self._deserialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
         if self._serialized_type is not None and not isinstance(ctx.value, self._serialized_type):
             raise ConversionError.expected(self, ctx, self._serialized_type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._deserialize)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._deserialize)
         return method(ctx.value)
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 334758c..5e96cd4 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -767,9 +767,11 @@ class UnionConverter(Converter):
             raise ConversionError(self, ctx, f"The Union.{style.upper()} style is not supported for plain member types")
 
     def convert(self, ctx: Context) -> t.Any:
-        datatype = ctx.datatype
-        union: t.Optional[Union]
-        if isinstance(datatype, UnionTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        union: t.Optional[Union] = None
+        if isinstance(ctx.datatype, (AnnotatedTypeHint, ClassTypeHint)):
+            union = ctx.get_setting(Union)
+        if union is None and isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
             if not all(isinstance(a, ClassTypeHint) for a in datatype):
@@ -778,11 +780,7 @@ class UnionConverter(Converter):
             if len(members) != len(datatype):
                 raise NotImplementedError(f"members of plain Union cannot have overlapping type names: {datatype}")
             union = Union(members, Union.BEST_MATCH)
-        elif isinstance(datatype, (AnnotatedTypeHint, ClassTypeHint)):
-            union = ctx.get_setting(Union)
-            if union is None:
-                raise NotImplementedError
-        else:
+        if union is None:
             raise NotImplementedError
 
         style = union.style
@@ -874,10 +872,11 @@ class LiteralConverter(Converter):
     or #None."""
 
     def convert(self, ctx: Context) -> t.Any:
-        if not isinstance(ctx.datatype, LiteralTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        if not isinstance(datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        for literal in ctx.datatype.values:
+        for literal in datatype.values:
             # A boolean is not the same literal as the integer (or float) that it is equal to.
             if ctx.value == literal and isinstance(ctx.value, bool) == isinstance(literal, bool):
                 return literal
@@ -885,5 +884,5 @@ class LiteralConverter(Converter):
         raise ConversionError(
             self,
             ctx,
-            f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, ctx.datatype.values))}",
+            f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, datatype.values))}",
         )
-- 
2.43.0


From 763de3c2f68a606c8f3ef7ff59380d6d890747cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 11/54] fix: derive defaults and required keys of a TypedDict
 from the TypedDict itself

---
 databind/src/databind/core/schema.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index dafd295..f763713 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -303,12 +303,13 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
-        has_default = hasattr(typed_dict, key)
+        # Do not confuse the attributes inherited from #dict (e.g. "items") with default values.
+        has_default = key in vars(typed_dict)
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-            required=required and typed_dict.__total__,
-            default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
+            required=required and key in typed_dict.__required_keys__,
+            default=vars(typed_dict)[key] if has_default else None if not required else NotSet.Value,
             flattened=_is_flat(field_hint, False),
         )
 
-- 
2.43.0


From 70e82e9e90ebc0dcee99e6527fd27ac7bba98eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 12/54] fix: convert TypedDict values with the SchemaConverter
 and tolerate missing optional keys

---
 databind/src/databind/json/converters.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 5e96cd4..1b86f78 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -12,6 +12,7 @@ from typeapi import (
     TypeHint,
     UnionTypeHint,
     get_annotations,
+    is_typed_dict,
     type_repr,
 )
 
@@ -328,7 +329,11 @@ class MappingConverter(Converter):
         datatype = _unwrap_annotated(ctx.datatype)
 
         # Find the key and value types of the mapping.
-        if not isinstance(datatype, ClassTypeHint) or not issubclass(datatype.type, t.Mapping):
+        if (
+            not isinstance(datatype, ClassTypeHint)
+            or not issubclass(datatype.type, t.Mapping)
+            or is_typed_dict(datatype.type)  # Handled by the SchemaConverter
+        ):
             raise NotImplementedError
         candidates = set()
         for current in datatype.recurse_bases():
@@ -484,7 +489,8 @@ class SchemaConverter(Converter):
             is_instance = isinstance(ctx.value, schema.type)
         except TypeError:
             # The type may not support isinstance() checks (e.g. typing.TypedDict).
-            pass
+            if not isinstance(ctx.value, t.Mapping):
+                raise ConversionError.expected(self, ctx, t.Mapping)
         else:
             if not is_instance:
                 raise ConversionError.expected(self, ctx, schema.type)
@@ -492,9 +498,9 @@ class SchemaConverter(Converter):
         serialize_defaults = (ctx.get_setting(SerializeDefaults) or SerializeDefaults(self.serialize_defaults)).enabled
         result = self.json_mapping_type()
 
-        def _get_field_value(field_name: str, field: Field) -> t.Any:
+        def _get_field_value(field_name: str) -> t.Any:
             if isinstance(ctx.value, t.Mapping):
-                return ctx.value[field_name]  # TODO (@NiklasRosenstein): Respect non-required fields
+                return ctx.value[field_name]
             else:
                 return getattr(ctx.value, field_name)
 
@@ -502,7 +508,11 @@ class SchemaConverter(Converter):
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
 
         for field_name, field in schema.fields.items():
-            field_ctx = ctx.spawn(_get_field_value(field_name, field), field.datatype, field_name)
+            if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
+                if field.required:
+                    raise ConversionError(self, ctx, f"missing required field: {field_name!r}")
+                continue
+            field_ctx = ctx.spawn(_get_field_value(field_name), field.datatype, field_name)
             remainder = field_ctx.get_setting(Remainder)
             if remainder and remainder.enabled:
                 if remainder_field is not None:
-- 
2.43.0


From e783bdba6bd6e7d232dd261ef67dd4c0e1433d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 13/54] fix: keep the declaration order of TypedDict keys

---
 databind/src/databind/core/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index f763713..6c6ba76 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -300,8 +300,8 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     annotations = get_annotations(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
-    for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
-        field_hint = TypeHint(annotations[key]).evaluate(eval_context)
+    for key, annotation in annotations.items():  # In order of declaration
+        field_hint = TypeHint(annotation).evaluate(eval_context)
 
         # Do not confuse the attributes inherited from #dict (e.g. "items") with default values.
         has_default = key in vars(typed_dict)
-- 
2.43.0


From 07b6f19e8f41fa6c1503b9e46885d4303cfb44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 14/54] fix: do not attach class decorator settings to a
 decorated base class

---
 databind/src/databind/core/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 5777529..e9d4dd0 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -176,7 +176,8 @@ class ClassDecoratorSetting(Setting):
             raise RuntimeError("cannot decorate multiple types with the same setting instance")
 
         self.bound_to = type_
-        settings = getattr(type_, "__databind_settings__", None)
+        # Do not pick up the list of a base class, otherwise the setting would be attached to the base class.
+        settings = vars(type_).get("__databind_settings__")
         if settings is None:
             settings = []
             setattr(type_, "__databind_settings__", settings)
-- 
2.43.0


From 95d36ea8e2aed316f4863d4d818850fe7375702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 15/54] fix: serialize remainder and required fields also if
 they match their default value

---
 databind/src/databind/json/converters.py | 35 +++++++++++++++---------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 1b86f78..60402b1 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -506,6 +506,7 @@ class SchemaConverter(Converter):
 
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
+        omitted_keys: t.Set[str] = set()
 
         for field_name, field in schema.fields.items():
             if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
@@ -534,22 +535,30 @@ class SchemaConverter(Converter):
                 assert result.keys().isdisjoint(value.keys()), result.keys() & value.keys()
                 result.update(value)
             else:
-                if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
-                    alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
-                    if remainder and remainder.enabled:
-                        if not isinstance(value, t.Mapping):
-                            raise ConversionError(
-                                self,
-                                ctx,
-                                f"cannot expand remainder field {field_name!r} of type {type(value).__name__}",
-                            )
-                        remainder_values = value
-                    else:
-                        result[alias] = value
+                if remainder and remainder.enabled:
+                    if not isinstance(value, t.Mapping):
+                        raise ConversionError(
+                            self,
+                            ctx,
+                            f"cannot expand remainder field {field_name!r} of type {type(value).__name__}",
+                        )
+                    remainder_values = value
+                    continue
+                aliases = self._get_alias_setting(field_ctx, field_name).aliases
+                if (
+                    serialize_defaults
+                    or field.required
+                    or not field.has_default()
+                    or field_ctx.value != field.get_default()
+                ):
+                    result[aliases[0]] = value
+                else:
+                    omitted_keys.update(aliases)
 
         if remainder_field:
             assert remainder_values is not None
-            duplicate_keys = result.keys() & remainder_values.keys()
+            # The keys of fields that are omitted are also not available, they would be read back as these fields.
+            duplicate_keys = (result.keys() | omitted_keys) & remainder_values.keys()
             if duplicate_keys:
                 raise ConversionError(
                     self, ctx, f"keys in remainder field collide with other fields in the schema: {duplicate_keys}"
-- 
2.43.0


From e0b4f5a25927a580cc4fa23d1953cc99f6cb88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 16/54] fix: resolve dataclass fields of multiple base classes
 like the dataclass does

---
 databind/src/databind/core/schema.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 6c6ba76..8c6063e 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -181,15 +181,18 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     # forward references in field annotations; we can't just use the target
     # dataclass if it was defined in a different module.
     field_origin: t.Dict[str, type] = {}
-    base_queue = [hint.type]
-    while base_queue:
-        base_type = base_queue.pop(0)
-        if dataclasses.is_dataclass(base_type):
+    effective_fields = {field.name: field for field in dataclasses.fields(hint.type)}
+    for base_type in hint.type.__mro__:
+        if "__dataclass_fields__" in vars(base_type):
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
-                if field.name in annotations and field.name not in field_origin:
+                # With multiple inheritance, more than one base may define the field, but only one is in effect.
+                if (
+                    field.name in annotations
+                    and field.name not in field_origin
+                    and effective_fields.get(field.name) is field
+                ):
                     field_origin[field.name] = base_type
-        base_queue += base_type.__bases__
 
     # Retrieve the context in which type hints from each field origin type need to be
     # evaluated.
-- 
2.43.0


From ed7c5edc32d5a44a849421fdec06d7e745747c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 17/54] fix: raise ValueError for IDs that cannot be imported
 in ImportUnionMembers

---
 databind/src/databind/core/union.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 95bb90d..cc8e63d 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -181,7 +181,12 @@ class ImportUnionMembers(UnionMembers):
         parts = type_id.split(".")
         offset = 1
         module_name = parts[0]
-        module = importlib.import_module(module_name)
+        try:
+            module = importlib.import_module(module_name)
+        except ModuleNotFoundError as exc:
+            if exc.name != module_name:
+                raise
+            raise ValueError(f"{type_id!r} does not point to a type: {exc}")
 
         # Import as many modules as we can.
         for offset, part in enumerate(parts[offset:], offset):
@@ -193,11 +198,16 @@ class ImportUnionMembers(UnionMembers):
                 if sub_module_name in str(exc):
                     break
                 raise
+        else:
+            offset = len(parts)
 
         # Read the class.
         target = module
-        for offset, part in enumerate(parts[offset:], offset):
-            target = getattr(target, part)
+        for part in parts[offset:]:
+            try:
+                target = getattr(target, part)
+            except AttributeError as exc:
+                raise ValueError(f"{type_id!r} does not point to a type: {exc}")
 
         if not isinstance(target, type):  # type: ignore[unreachable]
             raise ValueError(f"{type_id!r} does not point to a type (got {type(target).__name__} instead)")
-- 
2.43.0


From ac431d2060433dcb8c2504b3777d92a67e53d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 18/54] fix: do not return stale types from StaticUnionMembers
 after a member was replaced

---
 databind/src/databind/core/union.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index cc8e63d..e042b48 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -88,7 +88,7 @@ class StaticUnionMembers(UnionMembers):
     members: _MembersDictType = dataclasses.field(default_factory=dict)
 
     def __post_init__(self) -> None:
-        self._eval_cache: t.Dict[str, StaticUnionMembers._TypeType] = {}
+        self._eval_cache: t.Dict[str, t.Tuple[t.Any, StaticUnionMembers._TypeType]] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
         for type_id in self.members:
@@ -102,18 +102,18 @@ class StaticUnionMembers(UnionMembers):
         raise ValueError(f"type {type_} is not a member of {self}")
 
     def get_type_by_id(self, type_id: str) -> t.Any:
-        try:
-            return self._eval_cache[type_id]
-        except KeyError:
-            pass
-
         try:
             member = self.members[type_id]
         except KeyError:
             raise ValueError(f"{type_id!r} is not a type ID of {self}")
 
         if isinstance(member, types.FunctionType):
-            member = self._eval_cache[type_id] = member()
+            # The member may have been replaced since it was last evaluated.
+            provider, type_ = self._eval_cache.get(type_id, (None, None))
+            if provider is not member:
+                type_ = member()
+                self._eval_cache[type_id] = (member, type_)
+            return type_
 
         return member
 
-- 
2.43.0


From 0fcaa8945a3bb5afe9917134f8207e02377ef594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 19/54] fix: do not split type IDs into characters in
 ChainUnionMembers.get_type_ids()

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index e042b48..6798518 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -255,4 +255,4 @@ class ChainUnionMembers(UnionMembers):
                 except NotImplementedError:
                     pass
 
-        return Stream(_gen()).concat().distinct().collect()
+        return Stream(_gen()).distinct().collect()
-- 
2.43.0


From a23ce74f08329096564c88515f14342f3310d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 20/54] fix: report colliding keys of flattened fields as
 ConversionError

---
 databind/src/databind/json/converters.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 60402b1..1d3a249 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -507,6 +507,14 @@ class SchemaConverter(Converter):
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
         omitted_keys: t.Set[str] = set()
+        flattened_keys: t.Set[str] = set()
+
+        def _check_disjoint(keys: t.AbstractSet[str]) -> None:
+            duplicate_keys = result.keys() & keys
+            if duplicate_keys:
+                raise ConversionError(
+                    self, ctx, f"keys of flattened field collide with other fields in the schema: {duplicate_keys}"
+                )
 
         for field_name, field in schema.fields.items():
             if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
@@ -532,7 +540,8 @@ class SchemaConverter(Converter):
                         f"field {field_name!r} is flattened but its serialized form is not "
                         f"a mapping (got {type(value).__name__!r})",
                     )
-                assert result.keys().isdisjoint(value.keys()), result.keys() & value.keys()
+                _check_disjoint(value.keys())
+                flattened_keys.update(value.keys())
                 result.update(value)
             else:
                 if remainder and remainder.enabled:
@@ -551,6 +560,8 @@ class SchemaConverter(Converter):
                     or not field.has_default()
                     or field_ctx.value != field.get_default()
                 ):
+                    if aliases[0] in flattened_keys:
+                        _check_disjoint({aliases[0]})
                     result[aliases[0]] = value
                 else:
                     omitted_keys.update(aliases)
-- 
2.43.0


From affc10cb69c8c41ccc142843ad4a5362277e8669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 21/54] fix: do not overwrite a key of a flat union member with
 the discriminator

---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 1d3a249..a99ceb3 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -884,6 +884,10 @@ class UnionConverter(Converter):
                 result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
+                if result.get(discriminator_key, member_name) != member_name:
+                    raise ConversionError(
+                        self, ctx, f"key in union member collides with the discriminator key {discriminator_key!r}"
+                    )
                 result[discriminator_key] = member_name
             elif style == Union.KEYED:
                 result = {member_name: result}
-- 
2.43.0


From 03fea84b9ede03429f225f98bddcf15c909c874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 22/54] fix: apply the Precision setting when deserializing
 decimals

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index a99ceb3..b986653 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -239,8 +239,8 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    return decimal.Decimal(ctx.value, context)
-                except decimal.InvalidOperation:
+                    return context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                except decimal.DecimalException:
                     raise ConversionError(self, ctx, f"not a valid decimal number: {ctx.value!r}")
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
-- 
2.43.0


From ce5dd47cd9325c04d88370bd7b849c0171d2ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 23/54] fix: format the trace of conversion errors for mapping
 keys of any type

---
 databind/src/databind/core/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index 7248791..ea6b71e 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -150,7 +150,8 @@ def format_context_trace(ctx: Context) -> str:
         elif ctx.key is None:
             key = "^"
         else:
-            raise TypeError(f"encountered unexpected type in Context.key: {ctx.key.__class__.__name__!r}")
+            # E.g. the keys of a mapping that is being serialized, which can be of any type.
+            key = f"[{ctx.key!r}]"
 
         line = f"  {key}: {ctx.datatype}"
         if ctx.location.line or ctx.location.column:
-- 
2.43.0


From 506cbf2d43de2ed7497bfb848281c2942623607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 24/54] fix: do not accept booleans as values of an IntEnum

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index b986653..6d2d21d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -301,7 +301,7 @@ class EnumConverter(Converter):
 
         else:
             if issubclass(enum_type, enum.IntEnum):
-                if not isinstance(value, int):
+                if not isinstance(value, int) or isinstance(value, bool):
                     raise ConversionError.expected(self, ctx, int, type(value))
                 try:
                     return enum_type(value)
-- 
2.43.0


From 2d2305882f2c36509c81e4bbf7cc8b1607c022b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 25/54] fix: do not modify the serialized form of a flat union
 member in place

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 6d2d21d..a265577 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -888,7 +888,8 @@ class UnionConverter(Converter):
                     raise ConversionError(
                         self, ctx, f"key in union member collides with the discriminator key {discriminator_key!r}"
                     )
-                result[discriminator_key] = member_name
+                # The member's converter may have returned an object that it does not own.
+                result = {**result, discriminator_key: member_name}
             elif style == Union.KEYED:
                 result = {member_name: result}
             elif style == Union.BEST_MATCH:
-- 
2.43.0


From 4e311a3aad592d04594b767e4d04276fae3a7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 26/54] fix: support remainder fields in flattened fields

---
 databind/src/databind/json/converters.py | 29 +++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index a265577..6194495 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -566,9 +566,21 @@ class SchemaConverter(Converter):
                 else:
                     omitted_keys.update(aliases)
 
+        # The keys of fields that are omitted are also not available, they would be read back as these fields.
+        if omitted_keys & flattened_keys:
+            raise ConversionError(
+                self,
+                ctx,
+                f"keys of flattened field collide with other fields in the schema: {omitted_keys & flattened_keys}",
+            )
+
         if remainder_field:
             assert remainder_values is not None
-            # The keys of fields that are omitted are also not available, they would be read back as these fields.
+            for flattened_fields in get_fields_expanded(schema).values():
+                for name, field in flattened_fields.items():
+                    aliases = self._get_alias_setting(ctx.spawn(None, field.datatype, name), name).aliases
+                    if aliases[0] not in flattened_keys:
+                        omitted_keys.update(aliases)
             duplicate_keys = (result.keys() | omitted_keys) & remainder_values.keys()
             if duplicate_keys:
                 raise ConversionError(
@@ -620,11 +632,18 @@ class SchemaConverter(Converter):
             return result
 
         result = {}
+        flattened_remainder: t.Optional[t.Tuple[str, t.Dict[str, t.Any]]] = None
         expanded = get_fields_expanded(schema)
         for field_name, field in schema.fields.items():
             if field.flattened:
                 assert field_name in expanded, field_name
-                value = ctx.spawn(_extract_fields(expanded[field_name]), field.datatype, field_name).convert()
+                previous_remainder_field = remainder_field
+                container = _extract_fields(expanded[field_name])
+                if remainder_field is not previous_remainder_field:
+                    # The remainder field is part of the flattened field, which then also gets the unused keys.
+                    flattened_remainder = field_name, container
+                    continue
+                value = ctx.spawn(container, field.datatype, field_name).convert()
             else:
                 container = _extract_field({}, field_name, field, False)
                 if not container:
@@ -638,7 +657,11 @@ class SchemaConverter(Converter):
         # TODO(@NiklasRosenstein): Support deserializing as a type different than what is defined in the schema.
 
         unused_keys = source.keys() - used_keys
-        if remainder_field:
+        if flattened_remainder:
+            field_name, container = flattened_remainder
+            container.update((k, source[k]) for k in unused_keys)
+            result[field_name] = ctx.spawn(container, schema.fields[field_name].datatype, field_name).convert()
+        elif remainder_field:
             remainders = {k: ctx.value[k] for k in unused_keys}
             result[remainder_field[0]] = ctx.spawn(
                 remainders, remainder_field[1].datatype, remainder_field[0]
-- 
2.43.0


From 07075a0ccbb1728e9c4a0e91b62594535ce93571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 27/54] fix: do not fail with a NameError in
 Settings.add_conditional()

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index e9d4dd0..bc16b93 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -70,7 +70,7 @@ class Settings(SettingsProvider):
     def add_conditional(self, predicate: t.Callable[["Context"], bool], setting: "Setting") -> None:
         """Adds a setting conditional on the given *predicate*."""
 
-        def _provider(context: Context) -> t.List[Setting]:
+        def _provider(context: "Context") -> t.List[Setting]:
             if predicate(context):
                 return [setting]
             return []
-- 
2.43.0


From 73a12445b87bd4a57bf6b23d96ef97bbc13a5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 28/54] fix: load flattened fields of the same name in
 different flattened sub fields

---
 databind/src/databind/json/converters.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 6194495..c02bfe7 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -484,6 +484,16 @@ class SchemaConverter(Converter):
         except ValueError as exc:
             raise NotImplementedError(str(exc))
 
+    def _iter_flattened_fields(self, field: Field) -> t.Iterator[t.Tuple[str, Field]]:
+        """Iterate over the fields that the flattened *field* expands to. Unlike with #get_fields_expanded(), fields of
+        different flattened sub fields can have the same name (they may have different aliases)."""
+
+        sub_fields = convert_to_schema(field.datatype).fields
+        yield from ((name, sub_field) for name, sub_field in sub_fields.items() if not sub_field.flattened)
+        for sub_field in sub_fields.values():
+            if sub_field.flattened:
+                yield from self._iter_flattened_fields(sub_field)
+
     def serialize_from_schema(self, ctx: Context, schema: Schema) -> t.MutableMapping[str, t.Any]:
         try:
             is_instance = isinstance(ctx.value, schema.type)
@@ -576,8 +586,8 @@ class SchemaConverter(Converter):
 
         if remainder_field:
             assert remainder_values is not None
-            for flattened_fields in get_fields_expanded(schema).values():
-                for name, field in flattened_fields.items():
+            for flattened_field in (field for field in schema.fields.values() if field.flattened):
+                for name, field in self._iter_flattened_fields(flattened_field):
                     aliases = self._get_alias_setting(ctx.spawn(None, field.datatype, name), name).aliases
                     if aliases[0] not in flattened_keys:
                         omitted_keys.update(aliases)
@@ -625,9 +635,9 @@ class SchemaConverter(Converter):
                     raise ConversionError(self, ctx, f"missing required field: {aliases[0]!r}{other_aliases}")
             return result
 
-        def _extract_fields(fields: t.Dict[str, Field]) -> t.Dict[str, t.Any]:
+        def _extract_fields(fields: t.Iterable[t.Tuple[str, Field]]) -> t.Dict[str, t.Any]:
             result: t.Dict[str, t.Any] = {}
-            for field_name, field in fields.items():
+            for field_name, field in fields:
                 _extract_field(result, field_name, field, True)
             return result
 
@@ -638,7 +648,7 @@ class SchemaConverter(Converter):
             if field.flattened:
                 assert field_name in expanded, field_name
                 previous_remainder_field = remainder_field
-                container = _extract_fields(expanded[field_name])
+                container = _extract_fields(self._iter_flattened_fields(field))
                 if remainder_field is not previous_remainder_field:
                     # The remainder field is part of the flattened field, which then also gets the unused keys.
                     flattened_remainder = field_name, container
-- 
2.43.0


From c924308e1131fee180cbb496de530c9cd5d63d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 29/54] fix: do not serialize strings, bytes and mappings as
 collections

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c02bfe7..8d23d27 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -150,7 +150,7 @@ class CollectionConverter(Converter):
                 yield ctx.spawn(val, item_type, idx).convert()
 
         if ctx.direction == Direction.SERIALIZE:
-            if not isinstance(ctx.value, python_type):
+            if not isinstance(ctx.value, python_type) or isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                 raise ConversionError.expected(self, ctx, python_type)
             _length_check()
             return self.json_collection_type(_convert_items())  # type: ignore[call-arg]
-- 
2.43.0


From 5a85113b7844ad6ab6f250bbeca79372626ce36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:41 +0000
Subject: [PATCH 30/54] fix: do not overwrite the discriminator of a nested
 union member with its value

---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 8d23d27..bae1fdc 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -914,6 +914,10 @@ class UnionConverter(Converter):
             self._check_style_compatibility(ctx, style, result)
             # Bring the serialized value into shape.
             if style == Union.NESTED:
+                if nesting_key == discriminator_key:
+                    raise ConversionError(
+                        self, ctx, f"nesting key collides with the discriminator key {discriminator_key!r}"
+                    )
                 result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
-- 
2.43.0


From f6e575e7cab20b9d25cd095c813fca283ab04a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:47 +0000
Subject: [PATCH 31/54] fix: do not convert values that a union refuses as
 objects of its base class

---
 databind/src/databind/json/converters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index bae1fdc..4151c01 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -476,6 +476,9 @@ class SchemaConverter(Converter):
         deserialize_as = ctx.get_setting(DeserializeAs)
         if deserialize_as is not None:
             datatype = TypeHint(deserialize_as.type)
+        elif ctx.get_setting(Union) is not None:
+            # A value that the UnionConverter refuses is not an object of the class that represents the union.
+            raise NotImplementedError("union types are handled by the UnionConverter")
         else:
             datatype = _unwrap_annotated(ctx.datatype)
 
-- 
2.43.0


From bdab6aa9bc656ad719465b9c88aaadc81896a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 32/54] fix: resolve keys inherited from another typed dict as
 declared there (forward references, default values)

---
 databind/src/databind/core/schema.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 8c6063e..d97299f 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -299,26 +299,40 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     assert is_typed_dict(typed_dict), typed_dict
 
-    eval_context = vars(sys.modules[typed_dict.__module__])
-
     annotations = get_annotations(t.cast(type, typed_dict))
+    owners = _get_typed_dict_key_owners(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
     for key, annotation in annotations.items():  # In order of declaration
-        field_hint = TypeHint(annotation).evaluate(eval_context)
+        owner = owners[key]
+        field_hint = TypeHint(annotation).evaluate(vars(sys.modules[owner.__module__]))
 
         # Do not confuse the attributes inherited from #dict (e.g. "items") with default values.
-        has_default = key in vars(typed_dict)
+        has_default = key in vars(owner)
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
             required=required and key in typed_dict.__required_keys__,
-            default=vars(typed_dict)[key] if has_default else None if not required else NotSet.Value,
+            default=vars(owner)[key] if has_default else None if not required else NotSet.Value,
             flattened=_is_flat(field_hint, False),
         )
 
     return Schema(fields, t.cast("Constructor", typed_dict), t.cast(type, typed_dict))
 
 
+def _get_typed_dict_key_owners(typed_dict: type) -> t.Dict[str, type]:
+    """Returns the class in the hierarchy of the typed dict that declares a key, for every key. Typed dicts have only
+    #dict as base class at runtime, their annotations include those of the typed dicts they are derived from."""
+
+    owners: t.Dict[str, type] = {}
+    for base in getattr(typed_dict, "__orig_bases__", ()):
+        if is_typed_dict(base):
+            owners.update(_get_typed_dict_key_owners(t.cast(type, base)))
+    for key, annotation in typed_dict.__annotations__.items():
+        if key not in owners or key in vars(typed_dict) or annotation != owners[key].__annotations__[key]:
+            owners[key] = typed_dict
+    return owners
+
+
 def _is_required(datatype: TypeHint, default: bool) -> bool:
     """If *datatype* is a #AnnotatedTypeHint instance, it will look for a #Required settings instance and returns
     that instances #Required.enabled value. Otherwise, it returns *default*."""
-- 
2.43.0


From 9ab0b243ebe4cb6da73fc8ae79c09bd2ff018e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 33/54] fix: load abstract sets as a set, refuse elements that
 are not hashable (instead of giving a list)

---
 databind/src/databind/json/converters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 4151c01..7a4046c 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -168,6 +168,12 @@ class CollectionConverter(Converter):
             try:
                 return python_type(values)
             except TypeError:
+                if issubclass(python_type, t.AbstractSet):
+                    # A list is no placeholder for a set (e.g. it would not be accepted when it is serialized).
+                    try:
+                        return set(values)
+                    except TypeError as exc:
+                        raise ConversionError(self, ctx, f"cannot create a set: {exc}")
                 # We assume that the native list is an appropriate placeholder for whatever specific Collection type
                 # was chosen in the value's datatype.
                 return values
-- 
2.43.0


From dc70344ec0ab17aabb56b2564cef7eb4652be01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 34/54] fix: do not confuse the type arguments of a generic
 class with those of the collection it is derived from

---
 databind/src/databind/json/converters.py | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7a4046c..aeebb6a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -64,6 +64,24 @@ def _unwrap_annotated(hint: TypeHint) -> TypeHint:
     return hint
 
 
+def _find_type_arguments(datatype: ClassTypeHint, base_type: t.Any, num_args: int) -> t.Set[t.Tuple[t.Any, ...]]:
+    """Find the arguments that *datatype* and its bases pass to the collection type *base_type*. The arguments of a
+    class that is derived from a parametrized collection are its own (they don't need to be passed on as they are)."""
+
+    def _is_parametrized(hint: t.Any) -> bool:
+        origin = t.get_origin(hint)
+        args = [arg for arg in t.get_args(hint) if arg is not Ellipsis]
+        return isinstance(origin, type) and issubclass(origin, base_type) and len(args) == num_args
+
+    return {
+        current.args
+        for current in datatype.recurse_bases()
+        if issubclass(current.type, base_type)
+        and len(current.args) == num_args
+        and not any(map(_is_parametrized, current.bases))
+    }
+
+
 class AnyConverter(Converter):
     """A converter for #typing.Any and #object typed values, which will return them unchanged in any case."""
 
@@ -129,10 +147,7 @@ class CollectionConverter(Converter):
                     )
 
         else:
-            candidates = set()
-            for current in datatype.recurse_bases():
-                if issubclass(current.type, t.Collection) and len(current.args) == 1:
-                    candidates.add(current.args[0])
+            candidates = {args[0] for args in _find_type_arguments(datatype, t.Collection, 1)}
             if len(candidates) == 0:
                 raise ConversionError(self, ctx, f"could not find item type in {datatype}")
             elif len(candidates) > 1:
@@ -341,10 +356,7 @@ class MappingConverter(Converter):
             or is_typed_dict(datatype.type)  # Handled by the SchemaConverter
         ):
             raise NotImplementedError
-        candidates = set()
-        for current in datatype.recurse_bases():
-            if issubclass(current.type, t.Mapping) and len(current.args) == 2:
-                candidates.add(current.args)
+        candidates = _find_type_arguments(datatype, t.Mapping, 2)
         if len(candidates) == 0:
             raise ConversionError(self, ctx, f"could not find key/value type in {datatype}")
         elif len(candidates) > 1:
-- 
2.43.0


From e8619895c84ad7154fa9df792cfec17f84961bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 35/54] fix: skip date format strings that are for another type
 of value

---
 databind/src/databind/core/settings.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index bc16b93..16b1296 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -582,7 +582,13 @@ class DateFormat(Setting):
                 if fmt.startswith("."):
                     yield self.__get_builtin_format(fmt)
                 else:
-                    yield type_.compile(fmt)  # type: ignore
+                    try:
+                        compiled = type_.compile(fmt)  # type: ignore
+                    except ValueError:
+                        # Skip a format that is for another type; re-raise if it is not a format at all.
+                        datetime_format.compile(fmt)
+                        continue
+                    yield compiled
             elif type(fmt) is type_:
                 yield fmt
             elif isinstance(fmt, format_set):
-- 
2.43.0


From 987ce9756a957f311b088fbe1ba77d310a6fc04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 36/54] fix: accept item types with metadata that is not
 hashable in collections and mappings

---
 databind/src/databind/json/converters.py | 26 ++++++++++++++----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index aeebb6a..e236e66 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -64,7 +64,7 @@ def _unwrap_annotated(hint: TypeHint) -> TypeHint:
     return hint
 
 
-def _find_type_arguments(datatype: ClassTypeHint, base_type: t.Any, num_args: int) -> t.Set[t.Tuple[t.Any, ...]]:
+def _find_type_arguments(datatype: ClassTypeHint, base_type: t.Any, num_args: int) -> t.List[t.Tuple[t.Any, ...]]:
     """Find the arguments that *datatype* and its bases pass to the collection type *base_type*. The arguments of a
     class that is derived from a parametrized collection are its own (they don't need to be passed on as they are)."""
 
@@ -73,13 +73,17 @@ def _find_type_arguments(datatype: ClassTypeHint, base_type: t.Any, num_args: in
         args = [arg for arg in t.get_args(hint) if arg is not Ellipsis]
         return isinstance(origin, type) and issubclass(origin, base_type) and len(args) == num_args
 
-    return {
-        current.args
-        for current in datatype.recurse_bases()
-        if issubclass(current.type, base_type)
-        and len(current.args) == num_args
-        and not any(map(_is_parametrized, current.bases))
-    }
+    # NOTE: Type arguments are not necessarily hashable (the metadata of annotations can be any object).
+    result: t.List[t.Tuple[t.Any, ...]] = []
+    for current in datatype.recurse_bases():
+        if (
+            issubclass(current.type, base_type)
+            and len(current.args) == num_args
+            and not any(map(_is_parametrized, current.bases))
+            and current.args not in result
+        ):
+            result.append(current.args)
+    return result
 
 
 class AnyConverter(Converter):
@@ -147,13 +151,13 @@ class CollectionConverter(Converter):
                     )
 
         else:
-            candidates = {args[0] for args in _find_type_arguments(datatype, t.Collection, 1)}
+            candidates = [args[0] for args in _find_type_arguments(datatype, t.Collection, 1)]
             if len(candidates) == 0:
                 raise ConversionError(self, ctx, f"could not find item type in {datatype}")
             elif len(candidates) > 1:
                 raise ConversionError(self, ctx, f"found multiple item types in {datatype}: {candidates}")
 
-            item_type = TypeHint(next(iter(candidates)))
+            item_type = TypeHint(candidates[0])
             item_types_iterator = iter(lambda: item_type, None)
             python_type = datatype.type
 
@@ -362,7 +366,7 @@ class MappingConverter(Converter):
         elif len(candidates) > 1:
             raise ConversionError(self, ctx, f"found multiple key/value types in {datatype}: {candidates}")
 
-        key_type, value_type = next(iter(candidates))
+        key_type, value_type = candidates[0]
 
         if not isinstance(ctx.value, t.Mapping):
             raise ConversionError.expected(self, ctx, t.Mapping)
-- 
2.43.0


From 5e2625ab912e5334c7b360d74cc856affbc7e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 37/54] fix: do not change the metadata passed to field()

---
 databind/src/databind/core/dataclasses.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ef61477..61028d6 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -125,7 +125,5 @@ def field(*, annotations=None, metadata=None, **kwargs):
     """
 
     if annotations:
-        if metadata is None:
-            metadata = {}
-        metadata[ANNOTATIONS_METADATA_KEY] = annotations
+        metadata = {**(metadata or {}), ANNOTATIONS_METADATA_KEY: annotations}
     return dataclasses.field(**kwargs, metadata=metadata)
-- 
2.43.0


From d2de92f1bb48e25cda086c75cc4143a7bf9e04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 38/54] fix: recognize missing arguments of dataclasses by
 identity

---
 databind/src/databind/core/dataclasses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 61028d6..edc4b64 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -50,7 +50,7 @@ ANNOTATIONS_METADATA_KEY = "databind.core.annotations"
 
 
 def _field_has_default(field: Field) -> bool:
-    return any(x != MISSING for x in (field.default, field.default_factory))  # type: ignore
+    return any(x is not MISSING for x in (field.default, field.default_factory))  # type: ignore
 
 
 def _process_class(cls, **kwargs):
@@ -84,7 +84,7 @@ def _process_class(cls, **kwargs):
     def __post_init__(self):
         # Ensure that no field has a "uninitialized" value.
         for key in self.__dataclass_fields__.keys():
-            if getattr(self, key) == NotSet.Value:
+            if getattr(self, key) is NotSet.Value:
                 raise TypeError(f"missing required argument {key!r}")
         if orig_postinit:
             orig_postinit(self)
-- 
2.43.0


From a350c1460f4b202a9789f2a6ea7e974d4a8a0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 39/54] fix: support InitVar, ClassVar, slots and fields set in
 the post-init hook in the dataclass extension

---
 databind/src/databind/core/dataclasses.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index edc4b64..e05e543 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -73,7 +73,7 @@ def _process_class(cls, **kwargs):
             f = getattr(cls, key)
             if not isinstance(f, Field):
                 continue
-        if not _field_has_default(f):
+        if f.init and not _field_has_default(f):
             # This prevents a SyntaxError if non-default arguments follow default arguments.
             f.default = NotSet.Value
             no_default_fields.append(key)
@@ -81,13 +81,15 @@ def _process_class(cls, **kwargs):
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
     orig_postinit = getattr(cls, "__post_init__", None)
 
-    def __post_init__(self):
+    def __post_init__(self, *init_vars):
         # Ensure that no field has a "uninitialized" value.
-        for key in self.__dataclass_fields__.keys():
-            if getattr(self, key) is NotSet.Value:
-                raise TypeError(f"missing required argument {key!r}")
+        for f in fields(self):
+            if f.init and getattr(self, f.name) is NotSet.Value:
+                raise TypeError(f"missing required argument {f.name!r}")
+        if any(value is NotSet.Value for value in init_vars):
+            raise TypeError("missing required init-only argument")
         if orig_postinit:
-            orig_postinit(self)
+            orig_postinit(self, *init_vars)
 
     cls.__post_init__ = __post_init__
 
@@ -97,7 +99,7 @@ def _process_class(cls, **kwargs):
     # After setting #Field.default for non-default fields, the default will be propagated
     # on the class level, so we delete that again from the class.
     for key in no_default_fields:
-        if key in no_default_fields:
+        if isinstance(cls.__dict__.get(key), (NotSet, Field)):
             delattr(cls, key)
 
     return cls
-- 
2.43.0


From 6057d067d127747043e27acac276312c55f18ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 40/54] fix: do not change the fields of a base class when a
 subclass declares them again

---
 databind/src/databind/core/dataclasses.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index e05e543..d443799 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -11,6 +11,7 @@ following default arguments.
 """
 
 import dataclasses
+import types
 import typing as t
 from dataclasses import (
     MISSING,
@@ -56,18 +57,15 @@ def _field_has_default(field: Field) -> bool:
 def _process_class(cls, **kwargs):
     # Collect a list of the fields that have no default values but follow after a default argument.
     no_default_fields: t.List[str] = []
-    existing_fields = getattr(cls, "__dataclass_fields__", {})  # For subclasses of dataclasses
-    annotations = getattr(cls, "__annotations__", {})
-    if "__annotations__" not in cls.__dict__:
-        # Make sure that __annotations__ exists on the class itself.
-        cls.__annotations__ = annotations
+    annotations = cls.__dict__.get("__annotations__", {})
 
     # Make sure each annotated field actually has a #Field. For fields without
     # defaults, we will set #Field.default to #NotSet.Value so we can later
     # check if the field was set in __post_init__().
     for key in annotations.keys():
-        if not hasattr(cls, key):
-            f = existing_fields.get(key, field())
+        # NOTE: If a base class uses slots, the class attribute is not a default value.
+        if isinstance(getattr(cls, key, MISSING), (type(MISSING), types.MemberDescriptorType)):
+            f = field()
             setattr(cls, key, f)
         else:
             f = getattr(cls, key)
-- 
2.43.0


From 489fb1a3a19845aee76b6af029066caebf815f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 41/54] fix: read subtypes of UUIDs and paths with their own
 constructor

---
 databind/src/databind/json/converters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e236e66..c849d9f 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -729,7 +729,7 @@ class StringifyConverter(Converter):
     ) -> None:
         assert isinstance(type_, type), type_
         self.type_ = type_
-        self.parser: t.Callable[[str], T] = parser or type_
+        self.parser = parser
         self.formatter = formatter
         self.name = name
 
@@ -738,7 +738,7 @@ class StringifyConverter(Converter):
             return f"StringifyConverter(name={self.name!r})"
         else:
             return (
-                f"StringifyConverter(type={type_repr(self.type_)}, parser={self.parser!r}, "
+                f"StringifyConverter(type={type_repr(self.type_)}, parser={self.parser or self.type_!r}, "
                 f"formatter={self.formatter!r})"
             )
 
@@ -751,7 +751,8 @@ class StringifyConverter(Converter):
             if not isinstance(ctx.value, str):
                 raise ConversionError.expected(self, ctx, str)
             try:
-                return self.parser(ctx.value)
+                # A subtype is deserialized using its own constructor.
+                return (self.parser or datatype.type)(ctx.value)
             except (TypeError, ValueError) as exc:
                 raise ConversionError(self, ctx, str(exc))
 
-- 
2.43.0


From a936fd341ea133433dfca2725903a513294b531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 42/54] fix: read subtypes of decimals as the subtype

---
 databind/src/databind/json/converters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c849d9f..2af086c 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -264,14 +264,15 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    return context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                    value = context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                    return value if datatype.type is decimal.Decimal else datatype.type(value)
                 except decimal.DecimalException:
                     raise ConversionError(self, ctx, f"not a valid decimal number: {ctx.value!r}")
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-            if not isinstance(ctx.value, decimal.Decimal):
-                raise ConversionError.expected(self, ctx, decimal.Decimal, type(ctx.value))
+            if not isinstance(ctx.value, datatype.type):
+                raise ConversionError.expected(self, ctx, datatype.type, type(ctx.value))
             return str(ctx.value)
 
 
-- 
2.43.0


From b6c6c84220df5ccc0be2c6443c0b44b566586aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 43/54] fix: do not accept booleans as decimals

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 2af086c..2ea381e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -262,7 +262,8 @@ class DecimalConverter(Converter):
         context = precision.to_decimal_context() if precision else None
 
         if ctx.direction == Direction.DESERIALIZE:
-            if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
+            is_number = isinstance(ctx.value, (int, float)) and not isinstance(ctx.value, bool)
+            if (not strict.enabled and is_number) or isinstance(ctx.value, str):
                 try:
                     value = context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
                     return value if datatype.type is decimal.Decimal else datatype.type(value)
-- 
2.43.0


From 38bee351dc7b320a26560127ae8eb5d661d89972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 44/54] fix: accept annotated members in plain unions

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 2ea381e..9d2ae41 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -865,9 +865,9 @@ class UnionConverter(Converter):
         if union is None and isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
-            if not all(isinstance(a, ClassTypeHint) for a in datatype):
+            if not all(isinstance(_unwrap_annotated(a), ClassTypeHint) for a in datatype):
                 raise NotImplementedError(f"members of plain Union must be concrete types: {datatype}")
-            members = {t.cast(ClassTypeHint, a).type.__name__: a for a in datatype}
+            members = {t.cast(ClassTypeHint, _unwrap_annotated(a)).type.__name__: a for a in datatype}
             if len(members) != len(datatype):
                 raise NotImplementedError(f"members of plain Union cannot have overlapping type names: {datatype}")
             union = Union(members, Union.BEST_MATCH)
-- 
2.43.0


From ddee3453c42a7fcbdaf1ec8c695cfc745437e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 45/54] fix: Settings and providers that are empty (falsy) are
 not ignored

---
 databind/src/databind/core/mapper.py   | 4 ++--
 databind/src/databind/core/settings.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/mapper.py b/databind/src/databind/core/mapper.py
index f9e909c..3d13e65 100644
--- a/databind/src/databind/core/mapper.py
+++ b/databind/src/databind/core/mapper.py
@@ -21,7 +21,7 @@ class ObjectMapper(t.Generic[T, U]):
 
         assert isinstance(settings, (type(None), Settings)), settings
         self.module = Module("ObjectMapper.module")
-        self.settings = settings or Settings()
+        self.settings = Settings() if settings is None else settings
 
     def copy(self) -> "ObjectMapper[T, U]":
         new = type(self)(self.settings.copy())
@@ -67,7 +67,7 @@ class ObjectMapper(t.Generic[T, U]):
             direction=direction,
             value=value,
             datatype=datatype,
-            settings=settings or self.settings,
+            settings=self.settings if settings is None else settings,
             key=Context.ROOT,
             location=location or Location.EMPTY,
             convert_func=self.module.convert,
diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 16b1296..3cceeea 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -121,7 +121,7 @@ class Settings(SettingsProvider):
             for provider in self.providers:
                 yield from provider(context)
             yield from self.global_settings
-            if self.parent:
+            if self.parent is not None:
                 setting = self.parent.get_setting(context, setting_type)
                 if setting is not None:
                     yield setting
-- 
2.43.0


From 90a02e674d61571adc9bc04571a2f180313d0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 46/54] fix: flat union members keep the type of mapping their
 converter returned

---
 databind/src/databind/json/converters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 9d2ae41..572a479 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -1,4 +1,5 @@
 import base64
+import copy
 import datetime
 import decimal
 import enum
@@ -954,7 +955,8 @@ class UnionConverter(Converter):
                         self, ctx, f"key in union member collides with the discriminator key {discriminator_key!r}"
                     )
                 # The member's converter may have returned an object that it does not own.
-                result = {**result, discriminator_key: member_name}
+                result = copy.copy(result)
+                result[discriminator_key] = member_name
             elif style == Union.KEYED:
                 result = {member_name: result}
             elif style == Union.BEST_MATCH:
-- 
2.43.0


From 29bbe14bbee659208fdbfb4fdc4e625c292b3b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 47/54] fix: accept the documented priority argument in
 DateFormat

---
 databind/src/databind/core/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 3cceeea..8e61d7c 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -558,11 +558,13 @@ class DateFormat(Setting):
     T_Dtype = t.TypeVar("T_Dtype", bound=Dtype)
 
     formats: t.Sequence[T_Input]
+    priority: Priority = Priority.NORMAL
 
-    def __init__(self, *formats: T_Input) -> None:
+    def __init__(self, *formats: T_Input, priority: Priority = Priority.NORMAL) -> None:
         if not formats:
             raise ValueError("need at least one date format")
         self.formats = formats
+        self.priority = priority
 
     @staticmethod
     def __get_builtin_format(fmt: str) -> Formatter:
-- 
2.43.0


From af1264eeee855a6767fab5e0f9f2a2ef1a423c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 48/54] fix: make the schemas of flattened fields with the
 schema function given

---
 databind/src/databind/core/schema.py     | 2 +-
 databind/src/databind/json/converters.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index d97299f..84daea1 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -409,7 +409,7 @@ def get_fields_expanded(
             field_schema = convert_to_schema(field.datatype)
             result[field_name] = {
                 **{k: v for k, v in field_schema.fields.items() if not v.flattened},
-                **{k: v for sf in get_fields_expanded(field_schema).values() for k, v in sf.items()},
+                **{k: v for sf in get_fields_expanded(field_schema, convert_to_schema).values() for k, v in sf.items()},
             }
             for sub_field_name in result[field_name]:
                 if sub_field_name in schema.fields and sub_field_name != field_name:
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 572a479..e455a3d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -516,7 +516,7 @@ class SchemaConverter(Converter):
         """Iterate over the fields that the flattened *field* expands to. Unlike with #get_fields_expanded(), fields of
         different flattened sub fields can have the same name (they may have different aliases)."""
 
-        sub_fields = convert_to_schema(field.datatype).fields
+        sub_fields = self.convert_to_schema(field.datatype).fields
         yield from ((name, sub_field) for name, sub_field in sub_fields.items() if not sub_field.flattened)
         for sub_field in sub_fields.values():
             if sub_field.flattened:
@@ -671,7 +671,7 @@ class SchemaConverter(Converter):
 
         result = {}
         flattened_remainder: t.Optional[t.Tuple[str, t.Dict[str, t.Any]]] = None
-        expanded = get_fields_expanded(schema)
+        expanded = get_fields_expanded(schema, self.convert_to_schema)
         for field_name, field in schema.fields.items():
             if field.flattened:
                 assert field_name in expanded, field_name
-- 
2.43.0


From cb94f66db110e3a874bf0005f17a4d86d20c5044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 49/54] fix: enum aliases of further names and named
 combinations, refuse combinations without a name

---
 databind/src/databind/json/converters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e455a3d..72320af 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -321,6 +321,8 @@ class EnumConverter(Converter):
             if issubclass(enum_type, enum.IntEnum):
                 return value.value
             if issubclass(enum_type, enum.Enum):
+                if value.name not in enum_type.__members__:
+                    raise ConversionError(self, ctx, f"{value!r} is not a single member of {datatype}")
                 alias = self._discover_alias(enum_type, value.name)
                 if alias and alias.aliases:
                     return alias.aliases[0]
@@ -338,8 +340,9 @@ class EnumConverter(Converter):
             if issubclass(enum_type, enum.Enum):
                 if not isinstance(value, str):
                     raise ConversionError.expected(self, ctx, str, type(value))
-                for enum_value in enum_type:
-                    alias = self._discover_alias(enum_type, enum_value.name)
+                # Iterating over the enumeration skips members with multiple names and combined flags.
+                for name, enum_value in enum_type.__members__.items():
+                    alias = self._discover_alias(enum_type, name)
                     if alias and value in alias.aliases:
                         return enum_value
                 try:
-- 
2.43.0


From 80a2144d38ea315b40a5bc02de002262f73aec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 50/54] fix: date settings and values: derived classes,
 datetimes are no dates, conversion errors when writing

---
 databind/src/databind/core/settings.py   | 13 ++++++++-----
 databind/src/databind/json/converters.py | 14 +++++++++++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 8e61d7c..56a82fe 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -640,11 +640,14 @@ class DateFormat(Setting):
         from nr.date import date_format, datetime_format, time_format
 
         format_t: t.Type[DateFormat.Formatter]
-        format_t, method_name = {  # type: ignore
-            datetime.date: (date_format, "format_date"),
-            datetime.time: (time_format, "format_time"),
-            datetime.datetime: (datetime_format, "format_datetime"),
-        }[type(dt)]
+        if isinstance(dt, datetime.datetime):  # Before the date, which it is also an instance of.
+            format_t, method_name = datetime_format, "format_datetime"
+        elif isinstance(dt, datetime.date):
+            format_t, method_name = date_format, "format_date"
+        elif isinstance(dt, datetime.time):
+            format_t, method_name = time_format, "format_time"
+        else:
+            raise TypeError(f"expected date, time or datetime, got {type(dt).__name__}")
         for fmt in self.__iter_formats(format_t):
             try:
                 return t.cast(str, getattr(fmt, method_name)(dt))
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 72320af..fa0e597 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -229,8 +229,13 @@ class DatetimeConverter(Converter):
         )
         assert datefmt is not None
 
+        # A #datetime.datetime is also an instance of #datetime.date, but its text form is not that of a date.
+        is_instance = isinstance(ctx.value, date_type) and (
+            date_type is not datetime.date or not isinstance(ctx.value, datetime.datetime)
+        )
+
         if ctx.direction == Direction.DESERIALIZE:
-            if isinstance(ctx.value, date_type):
+            if is_instance:
                 return ctx.value
             elif isinstance(ctx.value, str):
                 try:
@@ -242,9 +247,12 @@ class DatetimeConverter(Converter):
             raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
 
         else:
-            if not isinstance(ctx.value, date_type):
+            if not is_instance:
                 raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
-            return datefmt.format(ctx.value)  # type: ignore[type-var]
+            try:
+                return datefmt.format(ctx.value)  # type: ignore[type-var]
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc))
 
 
 class DecimalConverter(Converter):
-- 
2.43.0


From 499b6eccfe995b03cc3b3679a8d55d356ee1e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 51/54] fix: respect the class settings of the type given by
 DeserializeAs

---
 databind/src/databind/json/converters.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index fa0e597..d7995f9 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -1,10 +1,12 @@
 import base64
 import copy
+import dataclasses
 import datetime
 import decimal
 import enum
 import typing as t
 
+import typing_extensions as te
 from typeapi import (
     AnnotatedTypeHint,
     ClassTypeHint,
@@ -31,6 +33,7 @@ from databind.core import (
     Remainder,
     Schema,
     SerializeDefaults,
+    Setting,
     Strict,
     Union,
     convert_to_schema,
@@ -39,6 +42,7 @@ from databind.core import (
 )
 
 T = t.TypeVar("T")
+T_Setting = t.TypeVar("T_Setting", bound=Setting)
 
 
 def _int_lossless(v: float) -> int:
@@ -508,6 +512,18 @@ class SchemaConverter(Converter):
     def _get_alias_setting(ctx: Context, field_name: str) -> Alias:
         return ctx.get_setting(Alias) or Alias(field_name)
 
+    @staticmethod
+    def _get_setting(ctx: Context, setting_type: t.Type[T_Setting]) -> t.Optional[T_Setting]:
+        """Look up a setting for the type that is actually converted. If that is not the declared type, the settings of
+        the class that is named by #DeserializeAs apply instead of those of the declared class."""
+
+        deserialize_as = ctx.get_setting(DeserializeAs)
+        if deserialize_as is not None:
+            metadata = ctx.datatype.metadata if isinstance(ctx.datatype, AnnotatedTypeHint) else ()
+            datatype = te.Annotated[(deserialize_as.type, *metadata)] if metadata else deserialize_as.type
+            ctx = dataclasses.replace(ctx, datatype=TypeHint(datatype))
+        return ctx.get_setting(setting_type)
+
     def _get_schema(self, ctx: Context) -> Schema:
         deserialize_as = ctx.get_setting(DeserializeAs)
         if deserialize_as is not None:
@@ -544,7 +560,9 @@ class SchemaConverter(Converter):
             if not is_instance:
                 raise ConversionError.expected(self, ctx, schema.type)
 
-        serialize_defaults = (ctx.get_setting(SerializeDefaults) or SerializeDefaults(self.serialize_defaults)).enabled
+        serialize_defaults = (
+            self._get_setting(ctx, SerializeDefaults) or SerializeDefaults(self.serialize_defaults)
+        ).enabled
         result = self.json_mapping_type()
 
         def _get_field_value(field_name: str) -> t.Any:
@@ -716,7 +734,7 @@ class SchemaConverter(Converter):
                 remainders, remainder_field[1].datatype, remainder_field[0]
             ).convert()
         elif unused_keys:
-            extra_keys = ctx.get_setting(ExtraKeys) or ExtraKeys(False)
+            extra_keys = self._get_setting(ctx, ExtraKeys) or ExtraKeys(False)
             extra_keys.inform(self, ctx, unused_keys)
 
         return schema.constructor(**result)
-- 
2.43.0


From 101899d5cb9b3e6481af36aec98678c48c45fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 52/54] fix: respect the default values and settings of
 NamedTuple fields

---
 databind/src/databind/json/converters.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d7995f9..af7de29 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -40,6 +40,8 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
+from databind.core.schema import _is_flat, _is_required
+from databind.core.utils import NotSet
 
 T = t.TypeVar("T")
 T_Setting = t.TypeVar("T_Setting", bound=Setting)
@@ -123,15 +125,21 @@ class CollectionConverter(Converter):
             and issubclass(datatype.type, tuple)
             and getattr(datatype.type, "__annotations__", None)
         ):
+            defaults = getattr(datatype.type, "_field_defaults", {})
+            fields = {}
+            for name, type_ in getattr(datatype.type, "__annotations__").items():
+                # We need to evaluate the type hint to remove forward references. The source is needed to
+                # understand the context in which forward references must be evaluated.
+                field_hint = TypeHint(type_, source=datatype.type).evaluate()
+                required = _is_required(field_hint, name not in defaults)
+                fields[name] = Field(
+                    datatype=field_hint,
+                    required=required,
+                    default=defaults.get(name, NotSet.Value if required else None),
+                    flattened=_is_flat(field_hint, False),
+                )
             schema = Schema(
-                fields={
-                    name: Field(
-                        # We need to evaluate the type hint to remove forward references. The source is needed to
-                        # understand the context in which forward references must be evaluated.
-                        datatype=TypeHint(type_, source=datatype.type).evaluate(),
-                    )
-                    for name, type_ in getattr(datatype.type, "__annotations__").items()
-                },
+                fields=fields,
                 constructor=datatype.type,
                 type=datatype.type,
             )
-- 
2.43.0


From 95b83e9a348402d325ceb5e534163400031e38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:26 +0000
Subject: [PATCH 53/54] fix: do not let other threads see incomplete entry
 points

---
 databind/src/databind/core/union.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 6798518..9ecd7f3 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -140,9 +140,8 @@ class EntrypointUnionMembers(UnionMembers):
     @property
     def _entrypoints(self) -> t.Dict[str, EntryPoint]:
         if self._entrypoints_cache is None:
-            self._entrypoints_cache = {}
-            for ep in iter_entry_points(self.group):
-                self._entrypoints_cache[ep.name] = ep
+            # Only a complete cache must be visible to other threads.
+            self._entrypoints_cache = {ep.name: ep for ep in iter_entry_points(self.group)}
         return self._entrypoints_cache
 
     def get_type_id(self, type_: t.Any) -> str:
-- 
2.43.0


From 8f70d8bf1843be7720e054de993881da1471cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 54/54] fix: allow registering union members while a type ID is
 looked up

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 9ecd7f3..d87c245 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -91,7 +91,7 @@ class StaticUnionMembers(UnionMembers):
         self._eval_cache: t.Dict[str, t.Tuple[t.Any, StaticUnionMembers._TypeType]] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
-        for type_id in self.members:
+        for type_id in list(self.members):  # Members may be registered while others are evaluated.
             reference_type = self.get_type_by_id(type_id)
             # NOTE (@NiklasRosenstein): If we have a TypeHint hint, it could represent a generic alias, but we get
             #   passed the type of a value here as type_ which would have lost any generic aliasing if it was even
-- 
2.43.0

