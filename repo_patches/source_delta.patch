From 7edd010bc12b5e4b97e3c7475328b5b057f53268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 01/18] fix: write each producer output to the Artifact at its
 own position

build_producer_partition paired the build outputs with
graph.producer_outputs by enumeration order, so a Graph holding only some
of a multi-output Producer's Artifacts stored the wrong output's data.
---
 src/arti/executors/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index dc0e537..a440720 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -10,6 +10,7 @@ from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
 from arti.graphs import GraphSnapshot
 from arti.internal.models import Model
+from arti.internal.type_hints import assert_not_none
 from arti.partitions import InputFingerprints, PartitionKey
 from arti.producers import InputPartitions, Producer
 
@@ -95,11 +96,13 @@ class Executor(Model):
         validation_passed, validation_message = producer.validate_outputs(*outputs)
         if not validation_passed:
             raise ValueError(validation_message)
-        for i, output in enumerate(outputs):
+        # NOTE: The Graph may only contain a subset of the outputs, so match them up by position.
+        for artifact in snapshot.graph.producer_outputs[producer]:
+            position = assert_not_none(artifact.producer_output).position
             snapshot.write(
-                output,
-                artifact=snapshot.graph.producer_outputs[producer][i],
+                outputs[position],
+                artifact=artifact,
                 input_fingerprint=input_fingerprint,
                 partition_key=partition_key,
-                view=producer._outputs_[i],
+                view=producer._outputs_[position],
             )
-- 
2.43.0


From b5534b129196b95f6e5a680bbce1ef07ba4cd165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 02/18] fix: only skip a producer partition when every output
 exists

discover_producer_partitions treated a partition as built when any of the
outputs existed, so a build interrupted between the outputs left the
others missing forever.
---
 src/arti/executors/__init__.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index a440720..c2f5526 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -4,7 +4,6 @@ __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
 import abc
 import logging
-from itertools import chain
 
 from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
@@ -49,16 +48,26 @@ class Executor(Model):
             output: connection.read_artifact_partitions(output, partition_input_fingerprints)
             for output in snapshot.graph.producer_outputs[producer]
         }
+        # A partition is only built if it exists for *every* output; otherwise, it must be (re)built to
+        # avoid leaving the missing output(s) unbuilt.
+        existing_partition_keys = set.intersection(
+            *(
+                {partition_snapshot.partition_key for partition_snapshot in partition_snapshots}
+                for partition_snapshots in output_partition_snapshots.values()
+            )
+        )
         for artifact, partition_snapshots in output_partition_snapshots.items():
             connection.write_snapshot_partitions(
-                snapshot, snapshot.graph.artifact_to_key[artifact], artifact, partition_snapshots
+                snapshot,
+                snapshot.graph.artifact_to_key[artifact],
+                artifact,
+                tuple(
+                    partition_snapshot
+                    for partition_snapshot in partition_snapshots
+                    if partition_snapshot.partition_key in existing_partition_keys
+                ),
             )
-        # TODO: Guarantee all outputs have the same set of identified partitions. Currently, this
-        # pretends a partition is built for all outputs if _any_ are built for that partition.
-        return {
-            snapshot.partition_key
-            for snapshot in chain.from_iterable(output_partition_snapshots.values())
-        }
+        return existing_partition_keys
 
     def build_producer_partition(
         self,
-- 
2.43.0


From 65e2edb5c14ac4773511a3f2789d8a36d313fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 03/18] fix: recompute the cached Graph structure after it is
 re-opened

The cached dependencies, producers, producer_outputs, and fingerprint were
kept when a sealed Graph was opened again and extended.
---
 src/arti/graphs/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index be6d6e7..d1d9ef4 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -136,6 +136,9 @@ class Graph(Model):
         # The Graph object is "frozen", so we must bypass the assignment checks.
         self.artifacts._status.root = status
         self._status = status
+        # The Artifacts may have changed while open, so drop anything derived from the prior contents.
+        for name in ("dependencies", "fingerprint", "producer_outputs", "producers"):
+            self.__dict__.pop(name, None)
         self._artifact_to_key = frozendict(
             {artifact: key for key, artifact in self.artifacts.walk()}
         )
-- 
2.43.0


From 3a4f254973ba1fb8823bfc6859ffea720e44e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 04/18] fix: build every Artifact sharing one producer output

Assigning the same output to two keys kept only the last Artifact in
producer_outputs, so the others were never written or linked.
---
 src/arti/graphs/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index d1d9ef4..c44426d 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -6,6 +6,7 @@ from collections import defaultdict
 from collections.abc import Callable
 from functools import cached_property, wraps
 from graphlib import TopologicalSorter
+from operator import itemgetter
 from types import TracebackType
 from typing import TYPE_CHECKING, Annotated, Any, Literal, TypeVar
 
@@ -191,15 +192,17 @@ class Graph(Model):
     @cached_property
     @requires_sealed
     def producer_outputs(self) -> frozendict[Producer, tuple[Artifact, ...]]:
-        d = defaultdict[Producer, dict[int, Artifact]](dict)
+        # NOTE: An output may be assigned to multiple keys, which are all separate Artifacts.
+        d = defaultdict[Producer, list[tuple[int, Artifact]]](list)
         for _, artifact in self.artifacts.walk():
             if artifact.producer_output is None:
                 continue
             output = artifact.producer_output
-            d[output.producer][output.position] = artifact
+            if (output.position, artifact) not in d[output.producer]:
+                d[output.producer].append((output.position, artifact))
         return frozendict(
-            (producer, tuple(artifacts_by_position[i] for i in sorted(artifacts_by_position)))
-            for producer, artifacts_by_position in d.items()
+            (producer, tuple(artifact for _, artifact in sorted(outputs, key=itemgetter(0))))
+            for producer, outputs in d.items()
         )
 
     # TODO: io.read/write probably need a bit of sanity checking (probably somewhere else), eg: type
-- 
2.43.0


From 713177b45415a09932bf1fb98eedacb5f28b7c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 05/18] fix: serialize Enum items in a deterministic order

The items frozenset was serialized in iteration order, so the fingerprint
of an Enum (and anything using it) differed across processes.
---
 src/arti/types/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/__init__.py b/src/arti/types/__init__.py
index 8b1512e..21be0bf 100644
--- a/src/arti/types/__init__.py
+++ b/src/arti/types/__init__.py
@@ -7,7 +7,7 @@ from collections.abc import Iterable, Mapping
 from operator import attrgetter
 from typing import Annotated, Any, ClassVar, Literal
 
-from pydantic import PrivateAttr, ValidationInfo, field_validator
+from pydantic import PrivateAttr, ValidationInfo, field_serializer, field_validator
 
 from arti.fingerprints import SkipFingerprint
 from arti.internal.mappings import FrozenMapping, frozendict
@@ -122,6 +122,11 @@ class Enum(_NamedMixin, Type):
             raise ValueError(f"incompatible {arti_type} ({py_type}) item(s): {mismatched_items}")
         return items
 
+    @field_serializer("items", when_used="json")
+    def _serialize_items(self, items: frozenset[Any]) -> list[Any]:
+        # Set order varies across processes (ie: hash seeds), so sort for a deterministic fingerprint.
+        return sorted(items, key=repr)
+
     @property
     def _default_friendly_key(self) -> str:
         return f"{self.type.friendly_key}{self._arti_type_key_}"
-- 
2.43.0


From a126ba3510c6bdc29f2e3d6294ead6e616a6e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 06/18] fix: never treat a StringLiteral's value as a template

Placeholders like {graph_name} in literal data were replaced (or raised a
KeyError), so the value read back differed from the one stored.
---
 src/arti/storage/__init__.py | 7 ++++---
 src/arti/storage/literal.py  | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index ad0bace..32518cb 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -205,11 +205,12 @@ class Storage[SP: StoragePartition](Model):
             if not self.includes_input_fingerprint_template:
                 raise ValueError(f"{self} does not specify a {{input_fingerprint}} template")
             format_kwargs["input_fingerprint"] = str(input_fingerprint)
+        format_fields = self._format_fields
         field_values = {
             name: (
-                strip_partition_indexes(original).format(**format_kwargs)
-                if lenient_issubclass(type(original := getattr(self, name)), str)
-                else original
+                strip_partition_indexes(format_fields[name]).format(**format_kwargs)
+                if name in format_fields
+                else getattr(self, name)
             )
             for name in self.model_fields
             if name in self.storage_partition_type.model_fields
diff --git a/src/arti/storage/literal.py b/src/arti/storage/literal.py
index c949ad0..8920a1f 100644
--- a/src/arti/storage/literal.py
+++ b/src/arti/storage/literal.py
@@ -8,6 +8,7 @@ from arti import (
     StoragePartition,
     StoragePartitionSnapshots,
 )
+from arti.internal.mappings import frozendict
 
 _not_written_err = FileNotFoundError("Literal has not been written yet")
 
@@ -28,6 +29,13 @@ class StringLiteral(Storage[StringLiteralPartition]):
     id: str = "{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"
     value: str | None = None
 
+    @property
+    def _format_fields(self) -> frozendict[str, str]:
+        # The `value` is the stored data itself, not a template to resolve.
+        return frozendict(
+            {name: field for name, field in super()._format_fields.items() if name != "value"}
+        )
+
     def discover_partitions(
         self, input_fingerprints: InputFingerprints = InputFingerprints()
     ) -> StoragePartitionSnapshots:
-- 
2.43.0


From 3182364caaf7e397202e6d6934bd2822f8d9066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 07/18] fix: keep nullable Structs Optional in the pydantic
 type system

---
 src/arti/types/pydantic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arti/types/pydantic.py b/src/arti/types/pydantic.py
index 3a49231..02cab9c 100644
--- a/src/arti/types/pydantic.py
+++ b/src/arti/types/pydantic.py
@@ -17,6 +17,11 @@ class BaseModelAdapter(TypeAdapter):
     artigraph = Struct
     system = BaseModel
 
+    @classmethod
+    def matches_artigraph(cls, type_: Type, *, hints: dict[str, Any]) -> bool:
+        # Leave nullable Structs to the python type system, which wraps them with Optional.
+        return super().matches_artigraph(type_, hints=hints) and not type_.nullable
+
     @staticmethod
     def _field_to_artigraph(
         name: str, field: FieldInfo, *, hints: dict[str, Any], type_system: TypeSystem
-- 
2.43.0


From 9f9ae1ddeaa14875afe322c13df379d6e1451893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 08/18] fix: don't repeat the dot in the default GCSFile path

Format.extension already includes the leading dot.
---
 src/arti/storage/google/cloud/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/storage/google/cloud/storage.py b/src/arti/storage/google/cloud/storage.py
index 525fbaf..3440e13 100644
--- a/src/arti/storage/google/cloud/storage.py
+++ b/src/arti/storage/google/cloud/storage.py
@@ -39,7 +39,7 @@ class GCSFile(_GCSMixin, Storage[GCSFilePartition]):
         / "{names}"
         / "{partition_key_spec}"
         / "{input_fingerprint}"
-        / "{name}.{extension}"
+        / "{name}{extension}"
     )
 
     def discover_partitions(
-- 
2.43.0


From a81cfa097cb267e281e7afb8f0e19ae9226f7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 09/18] fix: let the right operand win in Mapping | frozendict

---
 src/arti/internal/mappings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index d9e979e..3ad913c 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -33,7 +33,8 @@ class frozendict[K, V](Mapping[K, V]):
     def __or__(self, other: Mapping[K, V]) -> frozendict[K, V]:
         return type(self)({**self, **other})
 
-    __ror__ = __or__
+    def __ror__(self, other: Mapping[K, V]) -> frozendict[K, V]:
+        return type(self)({**other, **self})
 
     def __repr__(self) -> str:
         return repr(self._data)
-- 
2.43.0


From 98682020c1c1b72d21f4fc45379ed64d0572f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 10/18] fix: discover partitions under paths containing glob
 characters

The literal parts of a path template were passed to glob unescaped, so data
written under a directory such as 'x[1]' was never found again.
---
 src/arti/storage/_internal.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 04d2f43..71f8747 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -1,8 +1,9 @@
 from __future__ import annotations
 
+import glob
 import string
 from collections import defaultdict
-from collections.abc import Callable, Iterable, Mapping
+from collections.abc import Callable, Iterable, Iterator, Mapping
 from functools import partial
 from typing import Any
 
@@ -111,11 +112,21 @@ def strip_partition_indexes(spec: str) -> str:
     return string.Formatter().vformat(spec, (), FormatDict(StripIndexPlaceholder))
 
 
+class _GlobFormatter(string.Formatter):
+    """Formatter that escapes any glob characters outside of the placeholders."""
+
+    def parse(
+        self, format_string: str
+    ) -> Iterator[tuple[str, str | None, str | None, str | None]]:
+        for literal, field_name, format_spec, conversion in super().parse(format_string):
+            yield glob.escape(literal), field_name, format_spec, conversion
+
+
 def spec_to_wildcard(spec: str, key_types: Mapping[str, type[PartitionField]]) -> str:
-    return string.Formatter().vformat(
-        spec.replace("{input_fingerprint}", "*"),
+    return _GlobFormatter().vformat(
+        spec,
         (),
-        FormatDict(WildcardPlaceholder.with_key_types(key_types)),
+        FormatDict(WildcardPlaceholder.with_key_types(key_types), input_fingerprint="*"),
     )
 
 
-- 
2.43.0


From 1e3063de3beec8130f18ca2ec587d1e1b33aab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 11/18] fix: serialize before opening the output file

An error while serializing (eg: non JSON compatible data) left a partial
file behind, which the next build accepted as the finished output.
---
 src/arti/io/json_gcsfile_python.py     | 4 +++-
 src/arti/io/json_localfile_python.py   | 4 +++-
 src/arti/io/pickle_gcsfile_python.py   | 4 +++-
 src/arti/io/pickle_localfile_python.py | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index 5d8ff72..a8a5228 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_json_gcsfile_python(
 def _write_json_gcsfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize up front - the file is uploaded on close, even if an error occurred part way through.
+    serialized = json.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "w") as file:
-        json.dump(data, file)
+        file.write(serialized)
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index 403e064..acd9044 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -42,7 +42,9 @@ def _read_json_localfile_python(
 def _write_json_localfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: LocalFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize up front to avoid leaving a partial file (that looks complete) behind upon error.
+    serialized = json.dumps(data)
     path = Path(storage_partition.path)
     path.parent.mkdir(exist_ok=True, parents=True)
     with path.open("w") as file:
-        json.dump(data, file)
+        file.write(serialized)
diff --git a/src/arti/io/pickle_gcsfile_python.py b/src/arti/io/pickle_gcsfile_python.py
index 5c24bed..bf46c29 100644
--- a/src/arti/io/pickle_gcsfile_python.py
+++ b/src/arti/io/pickle_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_pickle_gcsfile_python(
 def _write_pickle_gcsfile_python(
     data: Any, type_: Type, format: Pickle, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize up front - the file is uploaded on close, even if an error occurred part way through.
+    serialized = pickle.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "wb") as file:
-        pickle.dump(data, file)
+        file.write(serialized)
diff --git a/src/arti/io/pickle_localfile_python.py b/src/arti/io/pickle_localfile_python.py
index 3c7bd18..c279f68 100644
--- a/src/arti/io/pickle_localfile_python.py
+++ b/src/arti/io/pickle_localfile_python.py
@@ -44,7 +44,9 @@ def _write_pickle_localfile_python(
     storage_partition: LocalFilePartition,
     view: PythonBuiltin,
 ) -> None:
+    # Serialize up front to avoid leaving a partial file (that looks complete) behind upon error.
+    serialized = pickle.dumps(data)
     path = Path(storage_partition.path)
     path.parent.mkdir(exist_ok=True, parents=True)
     with path.open("wb") as file:
-        pickle.dump(data, file)
+        file.write(serialized)
-- 
2.43.0


From 715dacf4853c0c77145612b6de054e13afd7b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 12/18] fix: parse each partition field with its own type

The comprehension building the PartitionKey looked key_types up with the
loop variable left over from the loop above, so every field of a path was
parsed as the last one found.
---
 src/arti/storage/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 71f8747..ad85565 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -158,7 +158,7 @@ def extract_placeholders(
 
     partition_key = PartitionKey(
         {
-            field_name: key_types[key].from_components(**components)
+            field_name: key_types[field_name].from_components(**components)
             for field_name, components in field_components.items()
         }
     )
-- 
2.43.0


From e331a2acce19439cc7168e13bc5a397a1c0fcc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 13/18] fix: keep non-finite floats apart in fingerprints

---
 src/arti/internal/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 26993ad..368d602 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -79,6 +79,8 @@ class Model(BaseModel, metaclass=ModelMeta):
     model_config = ConfigDict(
         extra="forbid",
         frozen=True,
+        # Non-finite floats would otherwise all serialize (and thus fingerprint) as null.
+        ser_json_inf_nan="constants",
         strict=True,
         validate_assignment=True,  # Unused with frozen, unless that is overridden in subclass.
         validate_default=True,
-- 
2.43.0


From 9cf100d5d25fc3a4b1ac0fab85e79f06a492a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 14/18] fix: ignore the order of mappings in fingerprints

---
 src/arti/internal/models.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 368d602..b3080d1 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import json
 from collections.abc import Iterable
 from functools import cached_property
 from typing import (
@@ -163,7 +164,15 @@ class Model(BaseModel, metaclass=ModelMeta):
     # determinism.
     @cached_property
     def fingerprint(self) -> Fingerprint:
-        fingerprint = Fingerprint.from_string(self.model_dump_json())
+        # NOTE: Mappings are equal regardless of their order, so sort the keys.
+        fingerprint = Fingerprint.from_string(
+            json.dumps(
+                self.model_dump(mode="json"),
+                ensure_ascii=False,
+                separators=(",", ":"),
+                sort_keys=True,
+            )
+        )
         # NOTE: This shouldn't happen unless we somehow stumble upon Farmhash64(...) => 0
         if fingerprint.is_identity:  # coverage: ignore
             raise ValueError("Fingerprint is empty!")
-- 
2.43.0


From afb9191a5787f62cd6bb05921eab0abbab700681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 15/18] fix: serialize sets in a deterministic order

---
 src/arti/internal/models.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index b3080d1..d4c7c36 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import json
-from collections.abc import Iterable
+from collections.abc import Iterable, Mapping
 from functools import cached_property
 from typing import (
     TYPE_CHECKING,
@@ -144,7 +144,11 @@ class Model(BaseModel, metaclass=ModelMeta):
     ) -> dict[str, Any]:
         data = serializer(self)
         # Sort the serialized data to reduce variability - but still allow excluding fields.
-        return {field: data[field] for field in self._arti_fingerprint_fields_ if field in data}
+        return {
+            field: _sort_sets(getattr(self, field), data[field])
+            for field in self._arti_fingerprint_fields_
+            if field in data
+        }
 
     def model_dump(self, **kwargs) -> dict[str, Any]:
         _set_dump_kwargs_defaults(kwargs)
@@ -185,6 +189,20 @@ class Model(BaseModel, metaclass=ModelMeta):
         return repr(self)
 
 
+def _sort_sets(value: Any, data: Any) -> Any:
+    """Sort the sets in the (JSON) serialized `data`, as their order varies across processes."""
+    if not isinstance(data, list | dict) or not isinstance(value, Iterable):
+        return data
+    if isinstance(value, Mapping) and isinstance(data, dict) and len(value) == len(data):
+        return {k: _sort_sets(v, d) for v, (k, d) in zip(value.values(), data.items(), strict=True)}
+    if isinstance(value, frozenset | set | tuple) and isinstance(data, list):
+        if len(value) == len(data):
+            data = [_sort_sets(v, d) for v, d in zip(value, data, strict=True)]
+        if not isinstance(value, tuple):
+            data = sorted(data, key=lambda d: json.dumps(d, sort_keys=True))
+    return data
+
+
 def _set_dump_kwargs_defaults(kwargs: dict[str, Any]) -> None:
     # Serialize wrapped models as "Any"[1] to include fields added to subclasses that are not in the
     # base class used in a type hint. For example, `format: Format = JSON()` should serialize with
-- 
2.43.0


From 0565e4716d4f308b476d3ad09a507e8edbaf221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 16/18] fix: don't copy cached fingerprints to updated models

---
 src/arti/internal/models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index d4c7c36..bfc8d63 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -150,6 +150,14 @@ class Model(BaseModel, metaclass=ModelMeta):
             if field in data
         }
 
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copy = super().model_copy(update=update, deep=deep)
+        if update:
+            # Pydantic copies cached properties (eg: fingerprint), but they may depend on the updates.
+            for name in copy.__dict__.keys() - copy.model_fields.keys():
+                del copy.__dict__[name]
+        return copy
+
     def model_dump(self, **kwargs) -> dict[str, Any]:
         _set_dump_kwargs_defaults(kwargs)
         return super().model_dump(**kwargs)
-- 
2.43.0


From ea1f6efab32a11c974ffd13901a525096503f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 17/18] fix: name each producer after its own build function
 when a decorator is reused

---
 src/arti/producers/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 9ce0bb7..06b4505 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -424,11 +424,10 @@ def producer(
     version: Version | None = None,
 ) -> Callable[[BuildSig], type[Producer]]:
     def decorate(build: BuildSig) -> type[Producer]:
-        nonlocal name
-        name = build.__name__ if name is None else name
+        producer_name = build.__name__ if name is None else name
         __annotations__: dict[str, Any] = {}
         for param in signature(build).parameters.values():
-            with wrap_exc(ValueError, prefix=f"{name} {param.name} param"):
+            with wrap_exc(ValueError, prefix=f"{producer_name} {param.name} param"):
                 view = View.from_annotation(param.annotation, mode="READ")
                 __annotations__[param.name] = view.artifact_class
         # If overriding, set an explicit "annotations" hint until [1] is released.
@@ -439,7 +438,7 @@ def producer(
         if version:
             __annotations__["version"] = Version
         return type(
-            name,
+            producer_name,
             (Producer,),
             {
                 k: v
-- 
2.43.0


From 59fa2b775da16a5636d5b914a6c39c7cbb18144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 18/18] fix: carry the descriptions of arrays and tables to and
 from BigQuery

---
 src/arti/types/bigquery.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arti/types/bigquery.py b/src/arti/types/bigquery.py
index e15b0ee..4275cb0 100644
--- a/src/arti/types/bigquery.py
+++ b/src/arti/types/bigquery.py
@@ -202,6 +202,8 @@ class ListFieldTypeAdapter(TypeAdapter):
         field = type_system.to_system(type_.element, hints=hints)
         assert field.mode == BIGQUERY_MODE.REQUIRED
         field._properties["mode"] = BIGQUERY_MODE.REPEATED
+        if type_.description is not None:
+            field._properties["description"] = type_.description
         return field
 
 
@@ -227,6 +229,7 @@ class TableTypeAdapter(TypeAdapter):
         if type_.clustering_fields:
             kwargs["cluster_by"] = tuple(type_.clustering_fields)
         return cls.artigraph(
+            description=type_.description,
             name=f"{type_.project}.{type_.dataset_id}.{type_.table_id}",
             element=type_system.to_artigraph(
                 bigquery.SchemaField(
@@ -254,6 +257,8 @@ class TableTypeAdapter(TypeAdapter):
         if name == types.DEFAULT_ANONYMOUS_NAME:
             name = "project.dataset.table"
         table = cls.system(name, schema=type_system.to_system(type_.element, hints=hints).fields)
+        if type_.description is not None:
+            table.description = type_.description
         partition, cluster = type_.partition_by, type_.cluster_by
         if partition:
             # BigQuery only supports a single partitioning field. We'll move the rest to the
-- 
2.43.0

