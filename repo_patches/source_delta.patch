From 2dc7b7e3c9a4bc26bc906048f66a6601f5cbb2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 01/33] fix: frozendict.__ror__ keeps right-hand-side
 precedence

---
 src/arti/internal/mappings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index d9e979e..cf83fc6 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -33,7 +33,9 @@ class frozendict[K, V](Mapping[K, V]):
     def __or__(self, other: Mapping[K, V]) -> frozendict[K, V]:
         return type(self)({**self, **other})
 
-    __ror__ = __or__
+    def __ror__(self, other: Mapping[K, V]) -> frozendict[K, V]:
+        # Like `dict`, the right hand side (ie: `self`) wins.
+        return type(self)({**other, **self})
 
     def __repr__(self) -> str:
         return repr(self._data)
-- 
2.43.0


From 59bd85126c002ca9e97d77f874d9d4866e223049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 02/33] fix: TypedBox membership checks below a value return
 False instead of raising

---
 src/arti/internal/mappings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index cf83fc6..59168ac 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -154,7 +154,7 @@ class TypedBox[V](Mapping[str, TypedNode[V]]):
     ) -> tuple[TypedBox[V], str]:
         *head, tail = key.split(".")
         for part in head:
-            if short_circuit_missing and part not in self:
+            if short_circuit_missing and not (isinstance(self, TypedBox) and part in self):
                 return self, part
             self = cast(TypedBox[V], self[part])  # NOTE: reassigning self
         if tail.startswith("_"):
@@ -167,7 +167,8 @@ class TypedBox[V](Mapping[str, TypedNode[V]]):
         self, key = self._get_leaf_and_key(
             key, short_circuit_missing=True
         )  # NOTE: reassigning self
-        return key in self._data
+        # The key may descend into a value (eg: "a.b" when "a" is not a nested box).
+        return isinstance(self, TypedBox) and key in self._data
 
     def __getitem__(self, key: str) -> TypedNode[V]:
         self, key = self._get_leaf_and_key(key)  # NOTE: reassigning self
-- 
2.43.0


From 61059f1ea8e0a8e6c8d578aa75c1b9bb5b077329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 03/33] fix: Model.model_copy(update=...) drops cached
 properties, such as the fingerprint

---
 src/arti/internal/models.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 26993ad..c31ccc5 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Iterable
 from functools import cached_property
+from inspect import getattr_static
 from typing import (
     TYPE_CHECKING,
     Annotated,
@@ -143,6 +144,15 @@ class Model(BaseModel, metaclass=ModelMeta):
         # Sort the serialized data to reduce variability - but still allow excluding fields.
         return {field: data[field] for field in self._arti_fingerprint_fields_ if field in data}
 
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copy = super().model_copy(update=update, deep=deep)
+        if update:
+            # Pydantic copies the cached properties too, but they describe the original fields.
+            for name in set(copy.__dict__) - set(self.model_fields) - set(update):
+                if isinstance(getattr_static(type(self), name, None), cached_property):
+                    del copy.__dict__[name]
+        return copy
+
     def model_dump(self, **kwargs) -> dict[str, Any]:
         _set_dump_kwargs_defaults(kwargs)
         return super().model_dump(**kwargs)
-- 
2.43.0


From 1a47b1c45fa6c4c20d36086f0463621a5e0cb92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 04/33] fix: SemVer copies with an updated major version
 recompute the fingerprinted components

---
 src/arti/versions/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arti/versions/__init__.py b/src/arti/versions/__init__.py
index f71f611..7e75702 100644
--- a/src/arti/versions/__init__.py
+++ b/src/arti/versions/__init__.py
@@ -6,7 +6,7 @@ import inspect
 import subprocess
 from collections.abc import Callable
 from datetime import UTC, datetime
-from typing import Annotated, Any, cast
+from typing import Annotated, Any, Self, cast
 
 from annotated_types import Timezone
 from pydantic import Field, field_validator
@@ -41,7 +41,15 @@ class SemVer(Version):
 
     def model_post_init(self, __context: Any) -> None:
         super().model_post_init(__context)
-        fields = self._arti_fingerprint_fields_
+        self._set_fingerprint_fields()
+
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copy = super().model_copy(update=update, deep=deep)
+        copy._set_fingerprint_fields()  # The major version may have been updated
+        return copy
+
+    def _set_fingerprint_fields(self) -> None:
+        fields = type(self)._arti_fingerprint_fields_
         desired = {"_arti_type_", "major", "minor", "patch"}
         if unexpected := set(fields) - desired:
             raise NotImplementedError(
-- 
2.43.0


From d82957bcf00406b757c961ad9aa4892461560551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 05/33] fix: Enum fingerprints no longer depend on the
 process's hash seed

---
 src/arti/types/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/__init__.py b/src/arti/types/__init__.py
index 8b1512e..7822a29 100644
--- a/src/arti/types/__init__.py
+++ b/src/arti/types/__init__.py
@@ -7,7 +7,7 @@ from collections.abc import Iterable, Mapping
 from operator import attrgetter
 from typing import Annotated, Any, ClassVar, Literal
 
-from pydantic import PrivateAttr, ValidationInfo, field_validator
+from pydantic import PrivateAttr, ValidationInfo, field_serializer, field_validator
 
 from arti.fingerprints import SkipFingerprint
 from arti.internal.mappings import FrozenMapping, frozendict
@@ -122,6 +122,11 @@ class Enum(_NamedMixin, Type):
             raise ValueError(f"incompatible {arti_type} ({py_type}) item(s): {mismatched_items}")
         return items
 
+    # Set iteration order varies between processes, so sort the JSON (ie: fingerprinted) form.
+    @field_serializer("items", when_used="json")
+    def _serialize_items(self, items: frozenset[Any]) -> list[Any]:
+        return sorted(items, key=repr)
+
     @property
     def _default_friendly_key(self) -> str:
         return f"{self.type.friendly_key}{self._arti_type_key_}"
-- 
2.43.0


From 3a15bbe79c9ccacecb3a0ca9ad93d199e1f92082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 06/33] fix: rebuild partitions that only exist for some of a
 Producer's outputs

---
 src/arti/executors/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index dc0e537..46bb951 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -4,7 +4,6 @@ __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
 import abc
 import logging
-from itertools import chain
 
 from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
@@ -52,12 +51,14 @@ class Executor(Model):
             connection.write_snapshot_partitions(
                 snapshot, snapshot.graph.artifact_to_key[artifact], artifact, partition_snapshots
             )
-        # TODO: Guarantee all outputs have the same set of identified partitions. Currently, this
-        # pretends a partition is built for all outputs if _any_ are built for that partition.
-        return {
-            snapshot.partition_key
-            for snapshot in chain.from_iterable(output_partition_snapshots.values())
-        }
+        # A partition is only built if it exists for *all* outputs - a prior build may have been
+        # interrupted between writing each output (or some of the data may have since been lost).
+        return set.intersection(
+            *(
+                {partition_snapshot.partition_key for partition_snapshot in partition_snapshots}
+                for partition_snapshots in output_partition_snapshots.values()
+            )
+        )
 
     def build_producer_partition(
         self,
-- 
2.43.0


From a8f7a54f3ff653ab0bc4b3b577eaf57d35b96c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 07/33] fix: write the matching output when a Graph only
 contains some of a Producer's outputs

---
 src/arti/executors/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 46bb951..4381c95 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -96,11 +96,14 @@ class Executor(Model):
         validation_passed, validation_message = producer.validate_outputs(*outputs)
         if not validation_passed:
             raise ValueError(validation_message)
-        for i, output in enumerate(outputs):
+        # NOTE: The Graph may only contain some of the outputs.
+        for artifact in snapshot.graph.producer_outputs[producer]:
+            assert artifact.producer_output is not None
+            position = artifact.producer_output.position
             snapshot.write(
-                output,
-                artifact=snapshot.graph.producer_outputs[producer][i],
+                outputs[position],
+                artifact=artifact,
                 input_fingerprint=input_fingerprint,
                 partition_key=partition_key,
-                view=producer._outputs_[i],
+                view=producer._outputs_[position],
             )
-- 
2.43.0


From 66ce171d49ea59cd1e5e5433ea9b3ec3dda600f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 08/33] fix: re-opening a Graph drops its cached dependencies,
 outputs, and fingerprint

---
 src/arti/graphs/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index be6d6e7..49bf269 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -136,6 +136,9 @@ class Graph(Model):
         # The Graph object is "frozen", so we must bypass the assignment checks.
         self.artifacts._status.root = status
         self._status = status
+        # Drop anything cached (including while the Graph was open) as the artifacts may change.
+        for name in ("dependencies", "fingerprint", "producer_outputs", "producers"):
+            self.__dict__.pop(name, None)
         self._artifact_to_key = frozendict(
             {artifact: key for key, artifact in self.artifacts.walk()}
         )
-- 
2.43.0


From 46d478ae1f8690e67968b1bd3ab1f1998081fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 09/33] fix: escape glob characters in the literal parts of
 Storage templates during discovery

---
 src/arti/storage/_internal.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 04d2f43..8eb657e 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import glob
 import string
 from collections import defaultdict
 from collections.abc import Callable, Iterable, Mapping
@@ -111,11 +112,18 @@ def strip_partition_indexes(spec: str) -> str:
     return string.Formatter().vformat(spec, (), FormatDict(StripIndexPlaceholder))
 
 
+class _WildcardFormatter(string.Formatter):
+    def parse(self, format_string: Any) -> Any:
+        # Escape any magic glob characters in the literal text, only placeholders can be wildcards.
+        for literal_text, *placeholder in super().parse(format_string):
+            yield glob.escape(literal_text), *placeholder
+
+
 def spec_to_wildcard(spec: str, key_types: Mapping[str, type[PartitionField]]) -> str:
-    return string.Formatter().vformat(
-        spec.replace("{input_fingerprint}", "*"),
+    return _WildcardFormatter().vformat(
+        spec,
         (),
-        FormatDict(WildcardPlaceholder.with_key_types(key_types)),
+        FormatDict(WildcardPlaceholder.with_key_types(key_types), input_fingerprint="*"),
     )
 
 
-- 
2.43.0


From 152afefbe89f95692180621d76ff8d8c703e3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 10/33] fix: answer instead of raising when comparing a fixed
 tuple hint with a variadic one

---
 src/arti/internal/type_hints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index 7026f5f..508f2e2 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -75,8 +75,9 @@ def _check_issubclass(klass: Any, check_type: type) -> bool:
         if check_type_args and not (
             len(klass_args) == len(check_type_args)
             and all(
-                # check subclass OR things like "..."
-                lenient_issubclass(klass_arg, check_type_arg) or klass_arg is check_type_arg
+                # check subclass OR things like "..." (which is not a type to check against)
+                klass_arg is check_type_arg
+                or (check_type_arg is not ... and lenient_issubclass(klass_arg, check_type_arg))
                 for (klass_arg, check_type_arg) in zip(klass_args, check_type_args, strict=False)
             )
         ):
-- 
2.43.0


From 41a8d87cfbb09854d7246b9a388eb841c3ab4121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 11/33] fix: ignore Annotated metadata around unions in
 lenient_issubclass

---
 src/arti/internal/type_hints.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index 508f2e2..45bfbff 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -165,13 +165,13 @@ def get_annotation_from_value(value: Any) -> Any:
 
 
 def lenient_issubclass[T: type | tuple[type, ...]](klass: Any, class_or_tuple: T) -> TypeGuard[T]:
-    if not (
-        isinstance(klass, type | GenericAlias | TypeVar) or is_annotated_hint(klass) or klass is Any
-    ):
+    # Strip Annotated up front, the annotated hint may be a Union (or not a class at all).
+    klass = discard_Annotated(klass)
+    if not (isinstance(klass, type | GenericAlias | TypeVar) or klass is Any):
         return False
     if isinstance(class_or_tuple, tuple):
         return any(lenient_issubclass(klass, subtype) for subtype in class_or_tuple)
-    check_type = class_or_tuple
+    check_type = discard_Annotated(class_or_tuple)
     # NOTE: py 3.10 supports issubclass with Unions (eg: `issubclass(str, str | int)`)
     if is_union_hint(check_type):
         return any(lenient_issubclass(klass, subtype) for subtype in get_args(check_type))
-- 
2.43.0


From bec63d24ff0d28d8192be7eeb430245a118fff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 12/33] fix: convert Struct fields of type Null back from
 Python type hints

---
 src/arti/types/python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/python.py b/src/arti/types/python.py
index 38eff21..64b3efa 100644
--- a/src/arti/types/python.py
+++ b/src/arti/types/python.py
@@ -47,7 +47,8 @@ class PyNone(_ScalarClassTypeAdapter):
 
     @classmethod
     def matches_system(cls, type_: Any, *, hints: dict[str, Any]) -> bool:
-        return type_ is None
+        # `get_type_hints` (eg: for TypedDict fields) replaces `None` with `NoneType`.
+        return type_ is None or type_ is NoneType
 
 
 @python_type_system.register_adapter
-- 
2.43.0


From 23fafd60b526b67538911e38db9d225ce411fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 13/33] fix: give pydantic models generated from a Struct with
 a Null field an annotation

---
 src/arti/types/pydantic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arti/types/pydantic.py b/src/arti/types/pydantic.py
index 3a49231..acf7aae 100644
--- a/src/arti/types/pydantic.py
+++ b/src/arti/types/pydantic.py
@@ -5,7 +5,7 @@ from typing import Any
 from pydantic import BaseModel, create_model
 from pydantic.fields import FieldInfo
 
-from arti.internal.type_hints import lenient_issubclass
+from arti.internal.type_hints import NoneType, lenient_issubclass
 from arti.types import Struct, Type, TypeAdapter, TypeSystem, _NamedMixin
 from arti.types.python import python_type_system
 
@@ -48,4 +48,11 @@ class BaseModelAdapter(TypeAdapter):
     ) -> type[BaseModel]:
         assert isinstance(type_, Struct)
         annotations = {k: type_system.to_system(v, hints=hints) for k, v in type_.fields.items()}
-        return create_model(type_.name, **{name: (hint, ...) for name, hint in annotations.items()})
+        return create_model(
+            type_.name,
+            # NOTE: create_model treats a bare `None` as a missing annotation.
+            **{
+                name: (NoneType if hint is None else hint, ...)
+                for name, hint in annotations.items()
+            },
+        )
-- 
2.43.0


From f862826ba43f7a4c74e0cfcd3aa87036b039f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 14/33] fix: keep the nullability of nested Structs in
 generated pydantic models

---
 src/arti/types/pydantic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arti/types/pydantic.py b/src/arti/types/pydantic.py
index acf7aae..08ebeeb 100644
--- a/src/arti/types/pydantic.py
+++ b/src/arti/types/pydantic.py
@@ -38,6 +38,11 @@ class BaseModelAdapter(TypeAdapter):
             },
         )
 
+    @classmethod
+    def matches_artigraph(cls, type_: Type, *, hints: dict[str, Any]) -> bool:
+        # Nullable Structs are Optional[<model>], which the python_type_system handles.
+        return super().matches_artigraph(type_, hints=hints) and not type_.nullable
+
     @classmethod
     def matches_system(cls, type_: Any, *, hints: dict[str, Any]) -> bool:
         return lenient_issubclass(type_, cls.system)
-- 
2.43.0


From 2d43765b4b9468b7bbed1fa2a35c9bcb9ed724fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 15/33] fix: fingerprint equal mappings equally whatever their
 insertion order

---
 src/arti/internal/mappings.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index 59168ac..80ea78f 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -45,7 +45,12 @@ class frozendict[K, V](Mapping[K, V]):
         return [
             AfterValidator(cls),
             WrapSerializer(
-                lambda value, handler: handler(dict(value)),
+                # Equality ignores the order, so sort the JSON (ie: fingerprinted) form.
+                lambda value, handler, info: handler(
+                    dict(sorted(value.items(), key=lambda item: repr(item[0])))
+                    if info.mode == "json"
+                    else dict(value)
+                ),
                 return_type=Mapping[K, V],
                 when_used="unless-none",
             ),
-- 
2.43.0


From 05d84ac1b5b3d5ab001bc9dddffb7dac4052fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 16/33] fix: leave skipped fields with forward referenced hints
 out of fingerprints

Artifact.producer_output was part of the fingerprint of plain Artifacts: its hint could not be
resolved when the fingerprint fields were determined.
---
 src/arti/internal/models.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index c31ccc5..e476892 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -94,6 +94,30 @@ class Model(BaseModel, metaclass=ModelMeta):
         # Determine all of the Fingerprint fields.
         if not cls.model_config.get("frozen"):  # coverage: ignore
             raise ValueError(f"{cls._arti_type_key_} must be frozen to generate a fingerprint.")
+        cls._arti_fingerprint_fields_ = cls._get_fingerprint_fields()
+
+    @classmethod
+    def model_rebuild(
+        cls,
+        *,
+        force: bool = False,
+        raise_errors: bool = True,
+        _parent_namespace_depth: int = 2,
+        _types_namespace: dict[str, Any] | None = None,
+    ) -> bool | None:
+        rebuilt = super().model_rebuild(
+            force=force,
+            raise_errors=raise_errors,
+            _parent_namespace_depth=_parent_namespace_depth + 1,  # Account for this frame
+            _types_namespace=_types_namespace,
+        )
+        if rebuilt:
+            # Any `SkipFingerprint` in a hint that was still a ForwardRef is only visible now.
+            cls._arti_fingerprint_fields_ = cls._get_fingerprint_fields()
+        return rebuilt
+
+    @classmethod
+    def _get_fingerprint_fields(cls) -> tuple[str, ...]:
         field_annotations = (
             # Pydantic strips `Annotated[T, ...]` hints into `annotation` (T) and `metadata` (...).
             (
@@ -112,7 +136,7 @@ class Model(BaseModel, metaclass=ModelMeta):
             for name, computed_info in cls.model_computed_fields.items()
         )
         # Sort the fields to ensure a deterministic order for fingerprinting.
-        cls._arti_fingerprint_fields_ = tuple(
+        return tuple(
             sorted(
                 name
                 for name, annotation in [*field_annotations, *computed_annotations]
-- 
2.43.0


From 67f45e15baac171524a496de812efd7be0357b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 17/33] fix: fingerprint equal Timestamps equally whatever
 their timezone

---
 src/arti/versions/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/arti/versions/__init__.py b/src/arti/versions/__init__.py
index 7e75702..8006340 100644
--- a/src/arti/versions/__init__.py
+++ b/src/arti/versions/__init__.py
@@ -9,7 +9,7 @@ from datetime import UTC, datetime
 from typing import Annotated, Any, Self, cast
 
 from annotated_types import Timezone
-from pydantic import Field, field_validator
+from pydantic import Field, field_serializer, field_validator
 
 from arti.internal.models import Model
 
@@ -94,6 +94,14 @@ class Timestamp(Version):
             raise ValueError("Timestamp requires a timezone-aware datetime!")
         return dt
 
+    @field_serializer("dt", when_used="json")
+    def _serialize_in_utc(self, dt: datetime) -> datetime:
+        # The same instant is equal in any timezone, so it should have the same fingerprint too.
+        try:
+            return dt.astimezone(UTC)
+        except OverflowError:  # Close to the first or last representable instant
+            return dt
+
 
 # TODO: Consider a Timestamp like version with a "frequency" arg (day, hour, etc) that we floor/ceil
 # to trigger "scheduled" invalidation. This doesn't solve imperative work like "process X every hour
-- 
2.43.0


From bac2afad6aeddca1e444c0d893e706fba78a3b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 18/33] fix: treat the value of StringLiteral storage as data
 rather than as a template

A value with braces failed to resolve or to generate its partition, and an empty one was rejected.
---
 src/arti/storage/__init__.py | 7 ++++---
 src/arti/storage/literal.py  | 6 ++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index ad0bace..32518cb 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -205,11 +205,12 @@ class Storage[SP: StoragePartition](Model):
             if not self.includes_input_fingerprint_template:
                 raise ValueError(f"{self} does not specify a {{input_fingerprint}} template")
             format_kwargs["input_fingerprint"] = str(input_fingerprint)
+        format_fields = self._format_fields
         field_values = {
             name: (
-                strip_partition_indexes(original).format(**format_kwargs)
-                if lenient_issubclass(type(original := getattr(self, name)), str)
-                else original
+                strip_partition_indexes(format_fields[name]).format(**format_kwargs)
+                if name in format_fields
+                else getattr(self, name)
             )
             for name in self.model_fields
             if name in self.storage_partition_type.model_fields
diff --git a/src/arti/storage/literal.py b/src/arti/storage/literal.py
index c949ad0..150c1c5 100644
--- a/src/arti/storage/literal.py
+++ b/src/arti/storage/literal.py
@@ -8,6 +8,7 @@ from arti import (
     StoragePartition,
     StoragePartitionSnapshots,
 )
+from arti.internal.mappings import frozendict
 
 _not_written_err = FileNotFoundError("Literal has not been written yet")
 
@@ -28,6 +29,11 @@ class StringLiteral(Storage[StringLiteralPartition]):
     id: str = "{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"
     value: str | None = None
 
+    @property
+    def _format_fields(self) -> frozendict[str, str]:
+        # The value is data rather than a template, it may contain (unrelated) braces.
+        return frozendict({k: v for k, v in super()._format_fields.items() if k != "value"})
+
     def discover_partitions(
         self, input_fingerprints: InputFingerprints = InputFingerprints()
     ) -> StoragePartitionSnapshots:
-- 
2.43.0


From 1dd34f3e97a2c042f30ebe0c70e65c8aa77e33f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 19/33] fix: drop every occurrence of an empty placeholder from
 a storage template

When a placeholder was used both before a separator and elsewhere, only the
former occurrences were removed before checking for (and trimming) what was
left, eg: `{x}/b/{x}` became `b/` and `{x}/{x}` an empty text.
---
 src/arti/storage/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index 32518cb..bce8abc 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -227,10 +227,9 @@ class Storage[SP: StoragePartition](Model):
             if not value:
                 # Strip placeholder *and* any trailing self.segment_sep.
                 trim = "{" + placeholder + "}"
-                if f"{trim}{self.segment_sep}" in spec:
-                    trim = f"{trim}{self.segment_sep}"
+                spec = spec.replace(f"{trim}{self.segment_sep}", "").replace(trim, "")
                 # Also strip any trailing separators, eg: if the placeholder was at the end.
-                spec = spec.replace(trim, "").rstrip(self.segment_sep)
+                spec = spec.rstrip(self.segment_sep)
                 if not spec:
                     raise ValueError(f"{self}.{name} was empty after removing unused templates")
         return partial_format(spec, **placeholder_values)
-- 
2.43.0


From 0c7fcf9cfc085363438eaaed25c801a540c4bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 20/33] fix: parse each partition field with its own type

All of the fields in a path were parsed as the type of whichever placeholder
came last in the template.
---
 src/arti/storage/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 8eb657e..fa742de 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -155,7 +155,7 @@ def extract_placeholders(
 
     partition_key = PartitionKey(
         {
-            field_name: key_types[key].from_components(**components)
+            field_name: key_types[field_name].from_components(**components)
             for field_name, components in field_components.items()
         }
     )
-- 
2.43.0


From 5f85dfa386b00a94bdd212be720167dc209c477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 21/33] fix: refuse stored files that are not where their
 partition is stored

A file spelling the same key in another way (eg: 07 rather than 7) was reported
as a second copy of the partition (or as a partition that does not exist).
---
 src/arti/storage/google/cloud/storage.py | 17 ++++++++++-------
 src/arti/storage/local.py                | 13 +++++++++----
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/arti/storage/google/cloud/storage.py b/src/arti/storage/google/cloud/storage.py
index 525fbaf..b24f60c 100644
--- a/src/arti/storage/google/cloud/storage.py
+++ b/src/arti/storage/google/cloud/storage.py
@@ -54,11 +54,14 @@ class GCSFile(_GCSMixin, Storage[GCSFilePartition]):
         path_metadata = parse_spec(
             paths, spec=spec, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
-        return tuple(
-            self.generate_partition(
+        partitions = {
+            path: self.generate_partition(
                 input_fingerprint=input_fingerprint, partition_key=partition_key
-            ).snapshot()
-            for (bucket, path), (input_fingerprint, partition_key) in {
-                tuple(path.split("/", 1)): metadata for path, metadata in path_metadata.items()
-            }.items()
-        )
+            )
+            for path, (input_fingerprint, partition_key) in path_metadata.items()
+        }
+        for path, partition in partitions.items():
+            # The same key can be spelled in other ways (eg: "07" rather than "7").
+            if partition.qualified_path != path:
+                raise ValueError(f"Expected '{path}' to be stored at '{partition.qualified_path}'.")
+        return tuple(partition.snapshot() for partition in partitions.values())
diff --git a/src/arti/storage/local.py b/src/arti/storage/local.py
index 900d982..1592870 100644
--- a/src/arti/storage/local.py
+++ b/src/arti/storage/local.py
@@ -50,12 +50,17 @@ class LocalFile(Storage[LocalFilePartition]):
         path_metadata = parse_spec(
             paths, spec=self.path, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
-        return tuple(
-            self.generate_partition(
+        partitions = {
+            path: self.generate_partition(
                 input_fingerprint=input_fingerprint, partition_key=partition_key
-            ).snapshot()
+            )
             for path, (input_fingerprint, partition_key) in path_metadata.items()
-        )
+        }
+        for path, partition in partitions.items():
+            # The same key can be spelled in other ways (eg: "07" rather than "7").
+            if partition.path != path:
+                raise ValueError(f"Expected '{path}' to be stored at '{partition.path}'.")
+        return tuple(partition.snapshot() for partition in partitions.values())
 
     @classmethod
     def rooted_at(cls, root: str | Path, path: str | None = None) -> LocalFile:
-- 
2.43.0


From 8296ccaf462be296d770694fab49d239b447665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 22/33] fix: discover partitions of templates with formatted
 components

The default template of dates (with {date.m:02}) could not be converted to a
wildcard: TypeError: unsupported format string.
---
 src/arti/storage/_internal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index fa742de..2691065 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -85,6 +85,10 @@ class WildcardPlaceholder(Placeholder):
         self._err_if_no_attribute()
         return "*"
 
+    def __format__(self, spec: str) -> str:
+        # However the value is formatted (eg: "{date.m:02}"), match anything.
+        return str(self)
+
 
 # NOTE: We might pre-populate this with the Graph tags so the hard coded templates are already available (rather than
 # being filled in with a WildcardPlaceholder).
-- 
2.43.0


From e85ce2f71c96e7793625ed3ff27e464fe71a8c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 23/33] fix: regenerate and re-check default producer maps in
 subclasses

---
 src/arti/producers/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 9ce0bb7..50c0282 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -271,7 +271,9 @@ class Producer(Model):
     @classmethod
     def _validate_map_sig(cls) -> tuple[Signature, MapInputs]:
         """Validate partitioned Artifacts and the .map method"""
-        if not hasattr(cls, "map"):
+        # NOTE: A default `map` generated for a parent class reflects the parent's build inputs and
+        # outputs, hence must be checked and generated again for this class.
+        if not hasattr(cls, "map") or getattr(cls.map, "_generated_", False):
             # TODO: Add runtime checking of `map` output (ie: output aligns w/ output
             # artifacts and such).
             if any(is_partitioned(view.type) for view in cls._outputs_):
@@ -290,6 +292,7 @@ class Producer(Model):
                 ],
                 return_annotation=PartitionDependencies,
             )
+            map._generated_ = True  # type: ignore[attr-defined]
             cls.map = cast(MapSig, staticmethod(map))
         if not isinstance(getattr_static(cls, "map"), classmethod | staticmethod):
             raise ValueError("must be a @classmethod or @staticmethod")
-- 
2.43.0


From 40cbcac468574934cacc5947eebdc5b6f94ac62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 24/33] fix: keep producer decorators from remembering the
 first function's name

---
 src/arti/producers/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 50c0282..9c74cec 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -427,11 +427,11 @@ def producer(
     version: Version | None = None,
 ) -> Callable[[BuildSig], type[Producer]]:
     def decorate(build: BuildSig) -> type[Producer]:
-        nonlocal name
-        name = build.__name__ if name is None else name
+        # NOTE: Don't rebind `name` - the decorator may be applied to multiple functions.
+        producer_name = build.__name__ if name is None else name
         __annotations__: dict[str, Any] = {}
         for param in signature(build).parameters.values():
-            with wrap_exc(ValueError, prefix=f"{name} {param.name} param"):
+            with wrap_exc(ValueError, prefix=f"{producer_name} {param.name} param"):
                 view = View.from_annotation(param.annotation, mode="READ")
                 __annotations__[param.name] = view.artifact_class
         # If overriding, set an explicit "annotations" hint until [1] is released.
@@ -442,7 +442,7 @@ def producer(
         if version:
             __annotations__["version"] = Version
         return type(
-            name,
+            producer_name,
             (Producer,),
             {
                 k: v
-- 
2.43.0


From 3fcd9b5107b595858a2837333eba416f1fa2a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 25/33] fix: build every artifact that stores a producer's
 output

---
 src/arti/graphs/__init__.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 49bf269..0016305 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -191,15 +191,14 @@ class Graph(Model):
     @cached_property
     @requires_sealed
     def producer_outputs(self) -> frozendict[Producer, tuple[Artifact, ...]]:
-        d = defaultdict[Producer, dict[int, Artifact]](dict)
-        for _, artifact in self.artifacts.walk():
-            if artifact.producer_output is None:
-                continue
-            output = artifact.producer_output
-            d[output.producer][output.position] = artifact
+        # NOTE: An output may be used more than once (eg: stored in multiple places).
+        d = defaultdict[Producer, list[tuple[int, Artifact]]](list)
+        for artifact in self.artifact_to_key:
+            if (output := artifact.producer_output) is not None:
+                d[output.producer].append((output.position, artifact))
         return frozendict(
-            (producer, tuple(artifacts_by_position[i] for i in sorted(artifacts_by_position)))
-            for producer, artifacts_by_position in d.items()
+            (producer, tuple(artifact for _, artifact in sorted(outputs, key=lambda o: o[0])))
+            for producer, outputs in d.items()
         )
 
     # TODO: io.read/write probably need a bit of sanity checking (probably somewhere else), eg: type
-- 
2.43.0


From af8b7a52a0b853e8b937759f9d1c18315c811f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 26/33] fix: keep copies of a graph from opening the original

---
 src/arti/graphs/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 0016305..b95ccc8 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -7,7 +7,7 @@ from collections.abc import Callable
 from functools import cached_property, wraps
 from graphlib import TopologicalSorter
 from types import TracebackType
-from typing import TYPE_CHECKING, Annotated, Any, Literal, TypeVar
+from typing import TYPE_CHECKING, Annotated, Any, Literal, Self, TypeVar
 
 from pydantic import Field, PrivateAttr, field_validator
 
@@ -114,6 +114,15 @@ class Graph(Model):
         artifacts._status.root = CLOSED
         return artifacts
 
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copy = super().model_copy(update=update, deep=deep)
+        if copy.artifacts is self.artifacts:
+            # Opening the copy must not open (and extend) this Graph.
+            artifacts = ArtifactBox(self.artifacts)
+            artifacts._status.root = self.artifacts._status.root
+            copy.__dict__["artifacts"] = artifacts
+        return copy
+
     def __enter__(self) -> Graph:
         if arti.context.graph is not None:
             raise ValueError(f"Another graph is being defined: {arti.context.graph}")
-- 
2.43.0


From 7f304a1a8c144edc038dc6d96690bde94c39a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 27/33] fix: keep shallow copies (copy.copy) of a graph from
 opening the original

---
 src/arti/graphs/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index b95ccc8..fc0af5f 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -114,13 +114,12 @@ class Graph(Model):
         artifacts._status.root = CLOSED
         return artifacts
 
-    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
-        copy = super().model_copy(update=update, deep=deep)
-        if copy.artifacts is self.artifacts:
-            # Opening the copy must not open (and extend) this Graph.
-            artifacts = ArtifactBox(self.artifacts)
-            artifacts._status.root = self.artifacts._status.root
-            copy.__dict__["artifacts"] = artifacts
+    def __copy__(self) -> Self:
+        copy = super().__copy__()
+        # Opening the copy must not open (and extend) this Graph.
+        artifacts = ArtifactBox(self.artifacts)
+        artifacts._status.root = self.artifacts._status.root
+        copy.__dict__["artifacts"] = artifacts
         return copy
 
     def __enter__(self) -> Graph:
-- 
2.43.0


From 281f2b472136e4a0985548531589417ad4f07d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 28/33] fix: refuse incompatible views given to Graph.read

---
 src/arti/graphs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index fc0af5f..efcb06c 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -233,8 +233,8 @@ class Graph(Model):
                 artifact_class=type(artifact), type=artifact.type, mode="READ"
             )
             view.check_annotation_compatibility(annotation)
-            view.check_artifact_compatibility(artifact)
         assert view is not None  # mypy gets mixed up with ^
+        view.check_artifact_compatibility(artifact)
         if storage_partition_snapshots is None:
             # We want to allow reading raw Artifacts even if other raw Artifacts are missing (which
             # prevents snapshotting).
-- 
2.43.0


From 6e7f18c62d1abaea61cf823c6ecd2b5c8e3a647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:00 +0000
Subject: [PATCH 29/33] fix: reflect changes of raw data shared by multiple
 Artifacts in the snapshot id

---
 src/arti/graphs/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index efcb06c..5636ed9 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -336,13 +336,16 @@ class GraphSnapshot(Model):
         # TODO: Resolve and statically set all available fingerprints. Specifically, we should pin
         # the Producer.fingerprint, which may by dynamic (eg: version is a Timestamp). Unbuilt
         # Artifact (partitions) won't be fully resolved yet.
-        snapshot_id = graph.fingerprint
+        #
+        # Combine each fingerprint once - those of partitions shared by multiple Artifacts (ie: with
+        # the same Storage) would cancel out otherwise.
+        fingerprints = {graph.fingerprint}
         known_artifact_partitions = dict[str, StoragePartitionSnapshots]()
         for node, _ in graph.dependencies.items():
-            snapshot_id = snapshot_id.combine(node.fingerprint)
+            fingerprints.add(node.fingerprint)
             if isinstance(node, Artifact):
                 key = graph.artifact_to_key[node]
-                snapshot_id = snapshot_id.combine(Fingerprint.from_string(key))
+                fingerprints.add(Fingerprint.from_string(key))
                 # Include fingerprints (including content_fingerprint!) for all raw Artifact
                 # partitions, triggering a graph ID change if these artifacts change out-of-band.
                 #
@@ -355,10 +358,10 @@ class GraphSnapshot(Model):
                     if not known_artifact_partitions[key]:
                         content_str = "partitions" if is_partitioned(node.type) else "data"
                         raise ValueError(f"No {content_str} found for `{key}`: {node}")
-                    snapshot_id = snapshot_id.combine(
-                        *[partition.fingerprint for partition in known_artifact_partitions[key]]
+                    fingerprints.update(
+                        partition.fingerprint for partition in known_artifact_partitions[key]
                     )
-        snapshot = cls(graph=graph, id=snapshot_id)
+        snapshot = cls(graph=graph, id=Fingerprint.identity().combine(*fingerprints))
         # Write the discovered partitions (if not already known) and link to this new snapshot.
         with (connection or snapshot.backend).connect() as conn:
             conn.write_graph(graph)
-- 
2.43.0


From bed2003b6906f91852a261a1a2013744bb1db197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 30/33] fix: include which outputs the artifacts hold in the
 Graph's fingerprint

---
 src/arti/graphs/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 5636ed9..7b2a6ec 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -151,6 +151,18 @@ class Graph(Model):
             {artifact: key for key, artifact in self.artifacts.walk()}
         )
 
+    @cached_property
+    def fingerprint(self) -> Fingerprint:
+        # Artifacts omit the `producer_output` from their own fingerprint, but which output each of
+        # them holds is part of the Graph's structure.
+        return super().fingerprint.combine(
+            *[
+                Fingerprint.from_string(f"{key}={output.producer.fingerprint}[{output.position}]")
+                for key, artifact in self.artifacts.walk()
+                if (output := artifact.producer_output) is not None
+            ]
+        )
+
     @property
     def artifact_to_key(self) -> frozendict[Artifact, str]:
         return self._artifact_to_key
-- 
2.43.0


From de3516435fb3ffe06cf285fc4661c44ee3e7eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:53 +0000
Subject: [PATCH 31/33] fix: only link partitions of the current snapshot when
 a Producer has none to build

---
 src/arti/executors/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 4381c95..78cdaab 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -43,6 +43,10 @@ class Executor(Model):
         # we'll fetch all StoragePartitions for each Storage, filtered to the PKs and
         # input_fingerprints we've computed *are* for this snapshot - and then link them to the
         # snapshot.
+        #
+        # NOTE: Without any partitions, the (empty) filter would match those of *other* snapshots.
+        if not partition_input_fingerprints:
+            return set()
         output_partition_snapshots = {
             output: connection.read_artifact_partitions(output, partition_input_fingerprints)
             for output in snapshot.graph.producer_outputs[producer]
-- 
2.43.0


From 52ea6d229dac5e2b93a78b7e0f1cb688be2dd34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:58 +0000
Subject: [PATCH 32/33] fix: keep existing outputs when rebuilding a partition
 only some outputs were missing

---
 src/arti/executors/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 78cdaab..600d8dd 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -102,6 +102,16 @@ class Executor(Model):
             raise ValueError(validation_message)
         # NOTE: The Graph may only contain some of the outputs.
         for artifact in snapshot.graph.producer_outputs[producer]:
+            # An interrupted build may have already written some of the outputs. Writing them again
+            # could leave multiple (differing) snapshots of the same partition.
+            if any(
+                existing.partition_key == partition_key
+                and existing.input_fingerprint == input_fingerprint
+                for existing in connection.read_snapshot_partitions(
+                    snapshot, snapshot.graph.artifact_to_key[artifact], artifact
+                )
+            ):
+                continue
             assert artifact.producer_output is not None
             position = artifact.producer_output.position
             snapshot.write(
-- 
2.43.0


From ca45b7be5c111eed7497a24ca2a35ecd199f9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 33/33] fix: never leave a partially written file for a
 partition

---
 src/arti/internal/utils.py             | 20 ++++++++++++++++++++
 src/arti/io/json_gcsfile_python.py     |  4 +++-
 src/arti/io/json_localfile_python.py   |  6 ++----
 src/arti/io/pickle_gcsfile_python.py   |  4 +++-
 src/arti/io/pickle_localfile_python.py |  6 ++----
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index f366f79..e105aad 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -10,6 +10,7 @@ from pathlib import Path
 from tempfile import TemporaryDirectory
 from types import ModuleType
 from typing import IO, Any, Self, SupportsIndex, cast
+from uuid import uuid4
 
 from arti.internal.vendored.setuptools import find_namespace_packages
 
@@ -245,6 +246,25 @@ def register[K, V](
     return value
 
 
+def write_file(path: Path, contents: bytes) -> None:
+    """Write a file (and any missing parents), overwriting an existing one in place.
+
+    A new file appears all at once, hence an interrupted write isn't mistaken for a finished one. The
+    contents are staged next to it with a hidden name, which globs don't match.
+    """
+    path.parent.mkdir(exist_ok=True, parents=True)
+    if path.exists():
+        path.write_bytes(contents)
+        return
+    staged = path.with_name(f".{uuid4().hex}")
+    try:
+        staged.write_bytes(contents)
+        staged.replace(path)
+    except BaseException:
+        staged.unlink(missing_ok=True)
+        raise
+
+
 class NoCopyMixin:
     """Mixin to bypass (deep)copying.
 
diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index 5d8ff72..5a2c74c 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_json_gcsfile_python(
 def _write_json_gcsfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # NOTE: Closing the file after an error while serializing would still upload what was written.
+    contents = json.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "w") as file:
-        json.dump(data, file)
+        file.write(contents)
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index 403e064..48f763a 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -7,6 +7,7 @@ from pathlib import Path
 from typing import Any
 
 from arti.formats.json import JSON
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -42,7 +43,4 @@ def _read_json_localfile_python(
 def _write_json_localfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: LocalFilePartition, view: PythonBuiltin
 ) -> None:
-    path = Path(storage_partition.path)
-    path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("w") as file:
-        json.dump(data, file)
+    write_file(Path(storage_partition.path), json.dumps(data).encode())
diff --git a/src/arti/io/pickle_gcsfile_python.py b/src/arti/io/pickle_gcsfile_python.py
index 5c24bed..f01d4f1 100644
--- a/src/arti/io/pickle_gcsfile_python.py
+++ b/src/arti/io/pickle_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_pickle_gcsfile_python(
 def _write_pickle_gcsfile_python(
     data: Any, type_: Type, format: Pickle, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # NOTE: Closing the file after an error while serializing would still upload what was written.
+    contents = pickle.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "wb") as file:
-        pickle.dump(data, file)
+        file.write(contents)
diff --git a/src/arti/io/pickle_localfile_python.py b/src/arti/io/pickle_localfile_python.py
index 3c7bd18..fdb88d6 100644
--- a/src/arti/io/pickle_localfile_python.py
+++ b/src/arti/io/pickle_localfile_python.py
@@ -7,6 +7,7 @@ from pathlib import Path
 from typing import Any
 
 from arti.formats.pickle import Pickle
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -44,7 +45,4 @@ def _write_pickle_localfile_python(
     storage_partition: LocalFilePartition,
     view: PythonBuiltin,
 ) -> None:
-    path = Path(storage_partition.path)
-    path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("wb") as file:
-        pickle.dump(data, file)
+    write_file(Path(storage_partition.path), pickle.dumps(data))
-- 
2.43.0

