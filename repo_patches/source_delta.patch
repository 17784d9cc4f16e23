From 1a0cd0854ce3f1d30582c4e589bd579c7f8870f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 01/43] fix: parallel_insert no longer passes a scalar branch
 to lax.select

jax.lax.select requires both branches to have the shape of an array
predicate, so HashTable.parallel_insert raised TypeError for every table
with bucket_size <= 32 (including the default).
---
 xtructure/hashtable/insert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index f342f60..84115a1 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -242,12 +242,12 @@ def _hashtable_parallel_insert_internal(
         bucket_i32 = jnp.asarray(index.index, dtype=jnp.int32)
         slot_u32 = jnp.asarray(index.slot_index, dtype=jnp.uint32)
         safe_slot_u32 = jnp.asarray(
-            jax.lax.select(successful, slot_u32, jnp.uint32(0)),
+            jax.lax.select(successful, slot_u32, jnp.zeros_like(slot_u32)),
             dtype=jnp.uint32,
         )
         bit = jnp.left_shift(jnp.uint32(1), safe_slot_u32)
         bit = jnp.asarray(
-            jax.lax.select(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
+            jax.lax.select(successful, bit, jnp.zeros_like(bit)), dtype=jnp.uint32
         )
         table = table.replace(
             bucket_occupancy=table.bucket_occupancy.at[bucket_i32].add(bit)
-- 
2.43.0


From 617ea5d69fb913ca271c8a0ccb009e690be0738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 02/43] fix: single insert no longer stores a state in a bucket
 its probe limit never reaches

---
 xtructure/hashtable/insert.py | 5 ++++-
 xtructure/hashtable/lookup.py | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 84115a1..e359560 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -112,7 +112,10 @@ def _hashtable_insert_jit(
 
     idx, found, fingerprint = _hashtable_lookup_bucket_jit(table, input)
 
-    is_empty = idx.slot_index >= table.bucket_fill_levels[idx.index]
+    is_empty = jnp.logical_and(
+        idx.slot_index >= table.bucket_fill_levels[idx.index],
+        idx.slot_index < table.bucket_size,
+    )
     can_insert = jnp.logical_and(jnp.logical_not(found), is_empty)
 
     def _no_insert():
diff --git a/xtructure/hashtable/lookup.py b/xtructure/hashtable/lookup.py
index b514a57..06d4699 100644
--- a/xtructure/hashtable/lookup.py
+++ b/xtructure/hashtable/lookup.py
@@ -100,6 +100,11 @@ def _hashtable_lookup_internal(
         out_slot = cast(jax.Array, jnp.where(new_found, match_slot, filled_limit))
         next_bucket = (bucket_idx + probe_step) & mask
 
+        # When the probe budget is exhausted, stay on the last (full) bucket so callers
+        # never see a bucket that was not probed.
+        probes = probes + bucket_size_u32
+        should_stop = jnp.logical_or(should_stop, probes >= max_probes_u32)
+
         updated_idx = BucketIdxCls(
             index=cast(jax.Array, jnp.where(should_stop, bucket_idx, next_bucket)),
             slot_index=cast(
@@ -108,7 +113,6 @@ def _hashtable_lookup_internal(
             ),
         )
 
-        probes = probes + bucket_size_u32
         probes = cast(jax.Array, jnp.where(should_stop, max_probes_u32, probes))
         return updated_idx, new_found, probes
 
-- 
2.43.0


From 0f52ad263380a673603013584aa1b78e8b80c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 03/43] fix: parallel insert stores states only in buckets
 within the probe limit

---
 xtructure/hashtable/insert.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index e359560..4a62e1c 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -141,9 +141,30 @@ def _hashtable_parallel_insert_internal(
     index: Any,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    home_buckets: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     capacity = jnp.asarray(table._capacity, dtype=SIZE_DTYPE)
     probe_steps = jnp.asarray(probe_steps, dtype=SIZE_DTYPE)
+    home_buckets = jnp.asarray(home_buckets, dtype=SIZE_DTYPE)
+
+    # A lookup inspects ceil(max_probes / bucket_size) buckets, so an item may only be
+    # stored in one of the first that many buckets of its own probe sequence. The
+    # position of a bucket in that sequence is (bucket - home) / step modulo the
+    # power-of-two capacity; the odd step is inverted with Newton iterations.
+    probed_buckets = SIZE_DTYPE(-(-int(table.max_probes) // int(table.bucket_size)))
+    inverse_steps = probe_steps
+    for _ in range(4):
+        inverse_steps = inverse_steps * (
+            SIZE_DTYPE(2) - cast(jax.Array, probe_steps) * inverse_steps
+        )
+
+    def _is_valid(idxs: Any) -> chex.Array:
+        hops = ((idxs.index - home_buckets) * inverse_steps) & (
+            capacity - SIZE_DTYPE(1)
+        )
+        return jnp.logical_and(
+            idxs.slot_index < table.bucket_size, hops < probed_buckets
+        )
 
     def _advance(idx: Any, step: chex.Array) -> Any:
         next_bucket = idx.slot_index >= (table.bucket_size - 1)
@@ -174,7 +195,7 @@ def _hashtable_parallel_insert_internal(
             )
         )(unupdateds, idxs, probe_steps)
 
-    valid_initial = index.slot_index < table.bucket_size
+    valid_initial = _is_valid(index)
     flat_initial_slots = index.index * SIZE_DTYPE(
         table.bucket_size
     ) + index.slot_index.astype(SIZE_DTYPE)
@@ -197,7 +218,7 @@ def _hashtable_parallel_insert_internal(
         idxs, pending, probes = val
         updated_idxs = _next_idx(idxs, pending)
 
-        valid = updated_idxs.slot_index < table.bucket_size
+        valid = _is_valid(updated_idxs)
         flat_updated_slots = updated_idxs.index * SIZE_DTYPE(
             table.bucket_size
         ) + updated_idxs.slot_index.astype(SIZE_DTYPE)
@@ -216,7 +237,7 @@ def _hashtable_parallel_insert_internal(
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
-    successful = jnp.logical_and(successful, index.slot_index < table.bucket_size)
+    successful = jnp.logical_and(successful, _is_valid(index))
     flat_indices = index.index * SIZE_DTYPE(
         table.bucket_size
     ) + index.slot_index.astype(SIZE_DTYPE)
@@ -498,6 +519,7 @@ def _hashtable_parallel_insert_jit(
                 idx,
                 updatable,
                 fingerprints,
+                initial_idx,
             )
 
         cond_found = jnp.asarray(found, dtype=jnp.bool_)
-- 
2.43.0


From 9938d8c7cbb102f58b39b9819ac97c7082286180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 04/43] fix: load finds a file saved under a path without the
 .npz suffix

---
 xtructure/io/io.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 11679a2..51ac54b 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -149,6 +149,14 @@ def _unflatten_data_for_load(
     return field_values
 
 
+def _resolve_load_path(path: str) -> str:
+    """Return the file `save(path, ...)` wrote: numpy appends a missing `.npz` suffix."""
+    path = os.fspath(path)
+    if not path.endswith(".npz") and not os.path.exists(path):
+        return f"{path}.npz"
+    return path
+
+
 def load(path: str) -> Xtructurable:
     """
     Loads an xtructure dataclass instance from a .npz file.
@@ -162,7 +170,7 @@ def load(path: str) -> Xtructurable:
     Returns:
         A new instance of the saved xtructure dataclass.
     """
-    with np.load(path, allow_pickle=False) as data:
+    with np.load(_resolve_load_path(path), allow_pickle=False) as data:
         # Extract metadata
         if METADATA_MODULE_KEY not in data or METADATA_CLASS_NAME_KEY not in data:
             raise ValueError(
-- 
2.43.0


From 36ead9ff7ed87d22d3315c021bcbab24f237abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 05/43] fix: save and load bfloat16 (extension dtype) fields

---
 xtructure/io/io.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 51ac54b..58538bc 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -22,6 +22,10 @@ METADATA_CLASS_NAME_KEY = "__xtructure_class_name__"
 _BITPACK_PREFIX = "__xtructure_bitpack__"
 
 
+def _dtype_key(full_key: str) -> str:
+    return f"{full_key}.__xtructure_dtype__"
+
+
 def _bitpack_keys(full_key: str) -> Tuple[str, str, str, str]:
     # Use separate arrays so we can keep npz backward compatible and inspectable.
     data_key = f"{full_key}.{_BITPACK_PREFIX}.data"
@@ -68,7 +72,13 @@ def _flatten_instance_for_save(
                     np.array(str(jnp.asarray(value).dtype), dtype=np.str_)
                 )
             else:
-                flat_data[full_key] = np.asarray(value)
+                array = np.asarray(value)
+                if array.dtype.kind == "V":
+                    # Extension dtypes (e.g. bfloat16) are not representable in npz
+                    # files: store the raw bits next to the dtype name.
+                    flat_data[_dtype_key(full_key)] = np.array(array.dtype.name)
+                    array = array.view(f"u{array.dtype.itemsize}")
+                flat_data[full_key] = array
         else:
             # For non-array-like fields, save as 0-dim array
             flat_data[full_key] = np.array(value)
@@ -145,7 +155,10 @@ def _unflatten_data_for_load(
                 field_values[field_name] = unpacked
             elif full_key in data:
                 # Load JAX array from NumPy array
-                field_values[field_name] = jnp.array(data[full_key])
+                array = data[full_key]
+                if _dtype_key(full_key) in data:
+                    array = array.view(jnp.dtype(str(data[_dtype_key(full_key)])))
+                field_values[field_name] = jnp.array(array)
     return field_values
 
 
-- 
2.43.0


From 511f1f0dd13e7104be5806b95c9355af13481a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 06/43] fix: shape of an instance whose nested array field is
 unstructured

---
 xtructure/core/xtructure_decorators/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index b6511dc..07bb5ba 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -82,7 +82,10 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
                 if default_shape_field == ():
                     batch_shapes.append(shape.batch)
                     shape = shape.__class__((), *shape[1:])
-                elif shape.batch[-len(default_shape_field) :] == default_shape_field:
+                elif (
+                    shape.batch != -1
+                    and shape.batch[-len(default_shape_field) :] == default_shape_field
+                ):
                     batch_shapes.append(shape.batch[: -len(default_shape_field)])
                     cuted_batch_shape = shape.batch[-len(default_shape_field) :]
                     shape = shape.__class__(cuted_batch_shape, *shape[1:])
-- 
2.43.0


From 0707bf7b844ecb451305a32a4c7304b823fcee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 07/43] fix: save no longer truncates values that exceed their
 declared bits

---
 xtructure/io/io.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 58538bc..94c2ba0 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -35,6 +35,16 @@ def _bitpack_keys(full_key: str) -> Tuple[str, str, str, str]:
     return data_key, shape_key, bits_key, dtype_key
 
 
+def _fits_in_bits(value: Any, bits: int) -> bool:
+    """Whether packing `value` with `bits` bits per element is lossless."""
+    array = np.asarray(value)
+    if array.dtype.kind not in "bui":
+        return False
+    return array.size == 0 or (
+        int(array.min()) >= 0 and int(array.max()) >> bits == 0
+    )
+
+
 def _flatten_instance_for_save(
     instance: Xtructurable, prefix: str = "", *, packed: bool = True
 ) -> Dict[str, np.ndarray]:
@@ -62,6 +72,7 @@ def _flatten_instance_for_save(
                     descriptor is not None
                     and getattr(descriptor, "packed_bits", None) is not None
                 )
+                and _fits_in_bits(value, int(bits))
             ):
                 data_key, shape_key, bits_key, dtype_key = _bitpack_keys(full_key)
                 packed_bytes = to_uint8(jnp.asarray(value), active_bits=int(bits))
-- 
2.43.0


From c8d5e7737eb892f7e7ca1da132013c4a9855a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 08/43] fix: load resolves classes by qualified name (nested
 classes load, local ones are refused)

---
 xtructure/io/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 94c2ba0..9e31212 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -3,6 +3,7 @@
 import dataclasses
 import importlib
 import os
+from operator import attrgetter
 from typing import Any, Dict, Tuple
 
 import jax.numpy as jnp
@@ -117,7 +118,7 @@ def save(path: str, instance: Xtructurable, *, packed: bool = True):
     # Add metadata for reconstruction
     cls = instance.__class__
     data_to_save[METADATA_MODULE_KEY] = np.array(cls.__module__)
-    data_to_save[METADATA_CLASS_NAME_KEY] = np.array(cls.__name__)
+    data_to_save[METADATA_CLASS_NAME_KEY] = np.array(cls.__qualname__)
 
     # Ensure the directory exists
     directory = os.path.dirname(path)
@@ -207,7 +208,7 @@ def load(path: str) -> Xtructurable:
         # Dynamically import the class
         try:
             module = importlib.import_module(module_name)
-            cls = getattr(module, class_name)
+            cls = attrgetter(class_name)(module)
         except (ImportError, AttributeError) as e:
             raise ImportError(
                 f"Could not find class '{class_name}' in module '{module_name}'. "
-- 
2.43.0


From e9125fe42600ff81bd9a155a3c87e65d02cfcb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 09/43] fix: bfloat16 fields in saved files carry their dtype
 in the array key

---
 xtructure/io/io.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 9e31212..785f216 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -23,8 +23,8 @@ METADATA_CLASS_NAME_KEY = "__xtructure_class_name__"
 _BITPACK_PREFIX = "__xtructure_bitpack__"
 
 
-def _dtype_key(full_key: str) -> str:
-    return f"{full_key}.__xtructure_dtype__"
+def _raw_key_prefix(full_key: str) -> str:
+    return f"{full_key}.__xtructure_raw__."
 
 
 def _bitpack_keys(full_key: str) -> Tuple[str, str, str, str]:
@@ -87,8 +87,8 @@ def _flatten_instance_for_save(
                 array = np.asarray(value)
                 if array.dtype.kind == "V":
                     # Extension dtypes (e.g. bfloat16) are not representable in npz
-                    # files: store the raw bits next to the dtype name.
-                    flat_data[_dtype_key(full_key)] = np.array(array.dtype.name)
+                    # files: store the raw bits under a key that names the dtype.
+                    full_key = f"{_raw_key_prefix(full_key)}{array.dtype.name}"
                     array = array.view(f"u{array.dtype.itemsize}")
                 flat_data[full_key] = array
         else:
@@ -167,10 +167,13 @@ def _unflatten_data_for_load(
                 field_values[field_name] = unpacked
             elif full_key in data:
                 # Load JAX array from NumPy array
-                array = data[full_key]
-                if _dtype_key(full_key) in data:
-                    array = array.view(jnp.dtype(str(data[_dtype_key(full_key)])))
-                field_values[field_name] = jnp.array(array)
+                field_values[field_name] = jnp.array(data[full_key])
+            else:
+                raw_prefix = _raw_key_prefix(full_key)
+                for key in data:
+                    if key.startswith(raw_prefix):
+                        raw_dtype = jnp.dtype(key[len(raw_prefix) :])
+                        field_values[field_name] = jnp.array(data[key].view(raw_dtype))
     return field_values
 
 
-- 
2.43.0


From dc6e0928c209057d1eea270746f1f84f99826577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 10/43] fix: unpack_field follows Python slice semantics
 (negative and open-ended slices)

---
 .../core/xtructure_decorators/aggregate_bitpack/__init__.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 09c31f4..8c09bf7 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -260,10 +260,7 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
         if indices is None:
             return jnp.arange(nvalues, dtype=jnp.int32)
         if isinstance(indices, slice):
-            start = 0 if indices.start is None else int(indices.start)
-            stop = nvalues if indices.stop is None else int(indices.stop)
-            step = 1 if indices.step is None else int(indices.step)
-            return jnp.arange(start, stop, step, dtype=jnp.int32)
+            return jnp.arange(*indices.indices(nvalues), dtype=jnp.int32)
         if isinstance(indices, (list, tuple, np.ndarray)):
             return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
         return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
-- 
2.43.0


From 4886211def965d269532c4f0ec7e8636e2f2c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 11/43] fix: to_uint8 packs an empty array to zero bytes at
 every width

---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index 36bf01b..c23ba07 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -156,6 +156,8 @@ def to_uint8(values: chex.Array, active_bits: int = 1) -> chex.Array:
     )
 
     values_flat = values.reshape((-1,))
+    if values_flat.size == 0:
+        return jnp.zeros((0,), dtype=jnp.uint8)
 
     # Fast path for byte-aligned packing.
     if active_bits == 8:
-- 
2.43.0


From faff48ef7892bc9045820afb1641a4bc3bd6176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 12/43] fix: packed fields of an empty batch pack and unpack

---
 .../xtructure_decorators/bitpack_accessors.py    | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index ac5fbf6..c03c5d6 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -103,12 +103,10 @@ def _unpack_value(
             f"got {packed_arr.shape[-1]}."
         )
 
-    flat = packed_arr.reshape((-1, expected_packed_len))
+    if num_values == 0 or packed_arr.size == 0:
+        return jnp.zeros(batch_shape + unpacked_shape, dtype=unpacked_dtype)
 
-    if num_values == 0:
-        out_dtype = jnp.bool_ if packed_bits == 1 else jnp.uint8
-        out = jnp.zeros((flat.shape[0], 0), dtype=out_dtype)
-        return out.reshape(batch_shape + unpacked_shape)
+    flat = packed_arr.reshape((-1, expected_packed_len))
 
     if packed_bits == 1:
         bits = jnp.unpackbits(flat, count=num_values, bitorder="little", axis=1)
@@ -183,12 +181,10 @@ def _pack_value(
     num_values = int(np.prod(np.array(unpacked_shape, dtype=np.int64)))
     expected_packed_len = packed_num_bytes(num_values, packed_bits)
 
-    flat = arr.reshape((-1, num_values))
+    if arr.size == 0:
+        return jnp.zeros(batch_shape + (expected_packed_len,), dtype=jnp.uint8)
 
-    if num_values == 0:
-        return jnp.zeros((flat.shape[0], expected_packed_len), dtype=jnp.uint8).reshape(
-            batch_shape + (expected_packed_len,)
-        )
+    flat = arr.reshape((-1, num_values))
 
     if packed_bits == 1:
         bits = flat
-- 
2.43.0


From 662fee8042b54afb9b28d927cfd467add2ca4ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 13/43] fix: shape, dtype and classification follow a field
 that is assigned in place

---
 xtructure/core/xtructure_decorators/shape.py | 32 +++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index 07bb5ba..2eb8754 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -4,8 +4,10 @@ from typing import Type, TypeVar
 
 import jax.numpy as jnp
 
+from xtructure.core.dataclass import _INTERNAL_CACHE_KEYS
 from xtructure.core.field_descriptors import FieldDescriptor, get_field_descriptors
 from xtructure.core.protocol import StructuredType
+from xtructure.core.type_utils import is_xtructure_dataclass_type
 
 T = TypeVar("T")
 
@@ -34,6 +36,27 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
     cls.default_dtype = default_dtype
     _field_getter = attrgetter(*field_names) if field_names else None
 
+    # A cached shape/dtype is valid only while the fields it was computed from stay
+    # assigned. Assignments on this instance drop the caches (see __setattr__ below);
+    # assignments inside a nested instance cannot be seen from here, so classes with
+    # nested fields always recompute (the nested parts use their own caches).
+    _cacheable = not any(
+        is_xtructure_dataclass_type(fd.dtype) for fd in field_descriptors.values()
+    )
+    _plain_setattr = cls.__setattr__
+
+    def _set(self, name, value):
+        _plain_setattr(self, name, value)
+        for cache_key in _INTERNAL_CACHE_KEYS:
+            self.__dict__.pop(cache_key, None)
+
+    setattr(cls, "__setattr__", _set)
+
+    def _remember(self, cache_key, value):
+        # object.__setattr__ bypasses the invalidation above.
+        if _cacheable:
+            object.__setattr__(self, cache_key, value)
+
     def get_shape(self) -> shape_tuple:
         """
         Returns a namedtuple containing the batch shape (if present) and the shapes of all fields.
@@ -52,7 +75,7 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
         # Otherwise, batch is ().
         if not field_names:
             result = shape_tuple((), *[])
-            object.__setattr__(self, "_shape_cache", result)
+            _remember(self, "_shape_cache", result)
             return result
 
         values = _field_getter(self)
@@ -108,8 +131,7 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
                 final_batch_shape = -1
                 break
         result = shape_tuple(final_batch_shape, *field_shapes)
-        # Cache the result using object.__setattr__ to avoid potential frozen issues or overhead
-        object.__setattr__(self, "_shape_cache", result)
+        _remember(self, "_shape_cache", result)
         return result
 
     setattr(cls, "shape", property(get_shape))
@@ -126,7 +148,7 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
         result = type_tuple(
             *[getattr(self, field_name).dtype for field_name in field_names]
         )
-        object.__setattr__(self, "_dtype_cache", result)
+        _remember(self, "_dtype_cache", result)
         return result
 
     setattr(cls, "dtype", property(get_type))
@@ -166,7 +188,7 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
         else:
             result = StructuredType.BATCHED
 
-        object.__setattr__(self, "_structured_type_cache", result)
+        _remember(self, "_structured_type_cache", result)
         return result
 
     setattr(cls, "structured_type", property(get_structured_type))
-- 
2.43.0


From 56db15fd6da0790a8d1c05da2f4da2eb641eafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 14/43] fix: streaming hash of a state without content equals
 the plain hash

---
 xtructure/core/xtructure_decorators/hash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/hash.py b/xtructure/core/xtructure_decorators/hash.py
index a13e461..c70930f 100644
--- a/xtructure/core/xtructure_decorators/hash.py
+++ b/xtructure/core/xtructure_decorators/hash.py
@@ -241,7 +241,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_streaming_from_leaves(flat_leaves, seed):
         """Hash without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if sum(leaf.size for leaf in flat_leaves) == 0:
             return _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
 
         combined = jnp.uint32(0)
@@ -265,7 +265,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_pair_streaming_from_leaves(flat_leaves, seed):
         """Hash pair without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if sum(leaf.size for leaf in flat_leaves) == 0:
             h0 = _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
             h1 = _avalanche32(seed_u32 ^ jnp.uint32(0x85EBCA6B))
             return h0, h1
-- 
2.43.0


From 6c5a48b80db4b6b1334ea0ec638cd83278f7c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 15/43] fix: set_as_condition updates the elements selected by
 a slice

---
 xtructure/core/xtructure_numpy/array_ops.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index aebea61..22eb3db 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -26,13 +26,20 @@ def _update_array_on_condition(
         flat_batch_size = np.prod(batch_shape).item()
         reshaped_array = original_array.reshape((flat_batch_size, *item_shape))
 
-        raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
+        if any(isinstance(index, slice) for index in indices):
+            positions = jnp.arange(flat_batch_size).reshape(batch_shape)
+            raveled_indices = positions[indices]
+        else:
+            raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
 
         result = _update_array_on_condition(
             reshaped_array, raveled_indices, condition, values_to_set
         )
         return result.reshape(original_array.shape)
 
+    if isinstance(indices, slice):
+        indices = jnp.arange(original_array.shape[0])[indices]
+
     condition = jnp.asarray(condition, dtype=jnp.bool_)
     num_updates = condition.size
     if num_updates == 0:
-- 
2.43.0


From 66bc0d7e9f2e85d9e9c880c4c9eb78eb6cd06c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 16/43] fix: conditional updates accept index dtypes too narrow
 to hold the array length

---
 xtructure/core/xtructure_numpy/array_ops.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index 22eb3db..ffde097 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -53,6 +53,13 @@ def _update_array_on_condition(
 
     indices_array = jnp.reshape(indices_array, (num_updates,))
     index_dtype = indices_array.dtype
+    if (
+        jnp.issubdtype(index_dtype, jnp.integer)
+        and jnp.iinfo(index_dtype).max < original_array.shape[0]
+    ):
+        # The array length itself (the drop sentinel) must be representable.
+        index_dtype = jnp.dtype(jnp.int32)
+        indices_array = indices_array.astype(index_dtype)
     invalid_index = jnp.array(original_array.shape[0], dtype=index_dtype)
 
     # Enforce drop semantics for out-of-bounds 1D indices.
-- 
2.43.0


From a7b3566e03e08fdf9fc045d7f7eaab7bf78842cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 17/43] fix: from_tuple builds the instance from the tuple's
 fields

---
 xtructure/core/dataclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 7c1395f..30dc41f 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -125,7 +125,7 @@ class _Dataclass:
             )
 
         def _from_tuple(args):
-            return dcls(zip(dcls.__dataclass_fields__.keys(), args))
+            return dcls(**dict(zip(dcls.__dataclass_fields__.keys(), args)))
 
         def _to_tuple(self):
             return tuple(getattr(self, k) for k in self.__dataclass_fields__.keys())
-- 
2.43.0


From cb37264d96c3cb37004c86d989f783aae5326898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 18/43] fix: an instance can be pickled after its shape was
 read

---
 xtructure/core/dataclass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 30dc41f..fb8386a 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -134,7 +134,9 @@ class _Dataclass:
             return dataclasses.replace(self, **kwargs)
 
         def _getstate(self):
-            return self.__dict__
+            return {
+                k: v for k, v in self.__dict__.items() if k not in _INTERNAL_CACHE_KEYS
+            }
 
         # Register the dataclass at definition. As long as the dataclass is defined
         # outside __main__, this is sufficient to make JAX's PyTree registry
-- 
2.43.0


From 98930d101e9bcaf89d4a671654721254ae430bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 19/43] fix: broadcast_to broadcasts batch axes and keeps field
 axes

---
 .../dataclass_ops/shape_ops.py                | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
index 4521966..b491332 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
@@ -190,9 +190,24 @@ def moveaxis(
     )
 
 
-def broadcast_to(array: T, shape: Sequence[int]) -> T:
-    """Broadcast an array to a new shape."""
-    return jax.tree_util.tree_map(lambda x: jnp.broadcast_to(x, shape=shape), array)
+def broadcast_to(array: T, shape: Union[int, Sequence[int]]) -> T:
+    """Broadcast the batch dimensions of every field to a new batch shape."""
+    batch_shape = array.shape.batch
+    if batch_shape == -1:
+        return jax.tree_util.tree_map(lambda x: jnp.broadcast_to(x, shape=shape), array)
+
+    target = (shape,) if isinstance(shape, int) else tuple(shape)
+    batch_ndim = len(batch_shape)
+    # New batch axes go in front of the existing ones, never between batch and field axes.
+    new_axes = (1,) * (len(target) - batch_ndim)
+
+    return jax.tree_util.tree_map(
+        lambda x: jnp.broadcast_to(
+            jnp.reshape(x, new_axes + jnp.shape(x)),
+            target + jnp.shape(x)[batch_ndim:],
+        ),
+        array,
+    )
 
 
 def broadcast_arrays(*args: Any) -> list[Any]:
-- 
2.43.0


From d222e5aab8a4c6b1e7cfcd43353203b3ef91158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 20/43] fix: transpose counts negative axes from the last batch
 axis

---
 xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
index b491332..3abf44b 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
@@ -111,6 +111,9 @@ def transpose(dataclass_instance: T, axes: Union[tuple[int, ...], None] = None)
 
     if axes is None:
         axes = tuple(range(batch_ndim - 1, -1, -1))
+    else:
+        # Negative axes count from the last batch axis, not from the last field axis.
+        axes = tuple(axis + batch_ndim if axis < 0 else axis for axis in axes)
 
     def transpose_batch_only(field: jnp.ndarray) -> jnp.ndarray:
         field_ndim = jnp.ndim(field)
-- 
2.43.0


From 1acedb691664e956d82e3aec931006997422ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 21/43] fix: concat counts a negative axis from the last batch
 axis

---
 xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index 56913bf..be03076 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -66,7 +66,7 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
         first_batch_shape = dataclasses[0].shape.batch
         concat_axis_adjusted = axis if axis >= 0 else len(first_batch_shape) + axis
 
-        if concat_axis_adjusted >= len(first_batch_shape):
+        if not 0 <= concat_axis_adjusted < len(first_batch_shape):
             raise ValueError(
                 f"Concatenation axis {axis} is out of bounds for batch shape {first_batch_shape}"
             )
@@ -85,7 +85,8 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
                     )
 
         return jax.tree_util.tree_map(
-            lambda *arrays: jnp.concatenate(arrays, axis=axis), *dataclasses
+            lambda *arrays: jnp.concatenate(arrays, axis=concat_axis_adjusted),
+            *dataclasses,
         )
 
     raise ValueError(
-- 
2.43.0


From 3ff837755b1cd5014c0b151a80b9317b48757709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 22/43] fix: stack counts a negative axis from the last batch
 axis

---
 .../core/xtructure_numpy/dataclass_ops/batch_ops.py   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index be03076..d900910 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -175,6 +175,16 @@ def stack(dataclasses: List[T], axis: int = 0) -> T:
     if not dataclasses:
         raise ValueError("Cannot stack empty list of dataclasses")
 
+    first_batch_shape = dataclasses[0].shape.batch
+    if axis < 0 and first_batch_shape != -1:
+        # Count from the last batch axis of the result, not from the last field axis.
+        axis += len(first_batch_shape) + 1
+        if axis < 0:
+            raise ValueError(
+                f"Stacking axis {axis - len(first_batch_shape) - 1} is out of bounds "
+                f"for batch shape {first_batch_shape}"
+            )
+
     if len(dataclasses) == 1:
         return jax.tree_util.tree_map(
             lambda x: jnp.expand_dims(x, axis=axis), dataclasses[0]
@@ -189,7 +199,6 @@ def stack(dataclasses: List[T], axis: int = 0) -> T:
         raise ValueError("All dataclasses must have the same structured type")
 
     if first_structured_type == StructuredType.BATCHED:
-        first_batch_shape = dataclasses[0].shape.batch
         for dc in dataclasses[1:]:
             if dc.shape.batch != first_batch_shape:
                 raise ValueError(
-- 
2.43.0


From 799a1119f14927c4280e8412b3eb359d8a22ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 23/43] fix: where applies a per-position condition to whole
 field elements

---
 .../xtructure_numpy/dataclass_ops/logical_ops.py     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
index fc4461c..cc177d9 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
@@ -16,8 +16,20 @@ def where(
 ) -> Xtructurable:
     """Apply jnp.where across every field of a dataclass."""
     condition_array = jnp.asarray(condition, dtype=jnp.bool_)
+    batch_shape = x.shape.batch
 
     def _align_condition(target_shape: tuple[int, ...]) -> jnp.ndarray:
+        if batch_shape != -1 and 0 < condition_array.ndim <= len(batch_shape):
+            # One condition per batch position: it selects whole field elements.
+            try:
+                per_position = jnp.broadcast_to(condition_array, batch_shape)
+            except ValueError:
+                pass
+            else:
+                field_ndim = len(target_shape) - len(batch_shape)
+                return jnp.broadcast_to(
+                    per_position.reshape(batch_shape + (1,) * field_ndim), target_shape
+                )
         if condition_array.shape == target_shape:
             return condition_array
         try:
-- 
2.43.0


From 9ad17b35045e852774ccdb01777cb99f5c943f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 24/43] fix: unique_mask keeps filled rows whose key equals the
 unfilled sentinel

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index d376481..a4411b7 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -175,10 +175,11 @@ def unique_mask(
     perm = jnp.arange(batch_len_i, dtype=jnp.int32)
 
     if key is not None:
-        key_arr2 = jnp.asarray(key)
-        inf_fill = jnp.array(jnp.inf, dtype=key_arr2.dtype)
-        valid_key = jnp.where(effective_filled, key_arr2, inf_fill)
-        perm = _stable_sort_perm(perm, valid_key)
+        perm = _stable_sort_perm(perm, jnp.asarray(key))
+
+    # Valid rows precede invalid ones, also where a valid row hashes to MAX_KEY.
+    if key is not None or filled is not None:
+        perm = _stable_sort_perm(perm, jnp.logical_not(effective_filled))
 
     # Hash keys: least significant first so the first hash becomes most significant.
     for h in reversed(hashes):
-- 
2.43.0


From 7ff3f7051fd1df077be21e046624a42e0fd904fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 25/43] fix: unique_mask accepts integer costs

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index a4411b7..0f9296f 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -151,9 +151,10 @@ def unique_mask(
 
     if key is not None:
         key_arr = jnp.asarray(key)
-        # Docstring semantics: entries with +inf cost are excluded.
-        finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
-        effective_filled = jnp.logical_and(effective_filled, finite_key)
+        # Docstring semantics: entries with +inf cost are excluded (integers are finite).
+        if jnp.issubdtype(key_arr.dtype, jnp.floating):
+            finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
+            effective_filled = jnp.logical_and(effective_filled, finite_key)
 
     # 4. Handle filled: invalid items get MAX_KEY so they sort to the end
     for i in range(len(hashes)):
-- 
2.43.0


From 1f17910712f6ac2757c2fbec8f87ddc1d093236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 26/43] fix: unique_mask compares the tail bytes of bit-packed
 states

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 0f9296f..2b8a47f 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -108,7 +108,8 @@ def unique_mask(
         def _key_fn(x):
             # Prefer aggregate-packed representation if available for density
             if hasattr(x, "packed") and hasattr(x, "bitpack_schema"):
-                return x.packed.words
+                packed = x.packed
+                return jnp.concatenate([packed.words, packed.tail.astype(jnp.uint32)])
             return x.uint32ed
 
         key_fn_local = _key_fn
-- 
2.43.0


From c2f7c7a14942e089dfcfdf7c6bbb107c3a98fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 27/43] fix: unique_mask row signature no longer cancels
 high-bit differences

---
 .../unique_ops/optimized_unique_ops.py              | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 2b8a47f..3515959 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -36,9 +36,11 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
             col = lax.dynamic_index_in_dim(keys, i, axis=1, keepdims=False).astype(
                 jnp.uint64
             )
+            # Fold high bits down: multiplication alone never moves them, so
+            # differences in the top bits of two columns would cancel in every lane.
             hh1 = hh1 * c1 + col
             hh2 = hh2 * c2 + col
-            return hh1, hh2
+            return hh1 ^ (hh1 >> 32), hh2 ^ (hh2 >> 29)
 
         h1, h2 = lax.fori_loop(1, k, _hash_to_wide_step_u64, (h1, h2))
         return [h1, h2]
@@ -62,7 +64,14 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
             hh2 = hh2 * c2 + col
             hh3 = jnp.bitwise_xor(hh3, col) * c3
             hh4 = jnp.bitwise_xor(hh4, col) * c4
-            return hh1, hh2, hh3, hh4
+            # Fold high bits down: multiplication alone never moves them, so
+            # differences in the top bits of two columns would cancel in every lane.
+            return (
+                hh1 ^ (hh1 >> 16),
+                hh2 ^ (hh2 >> 15),
+                hh3 ^ (hh3 >> 14),
+                hh4 ^ (hh4 >> 13),
+            )
 
         h1, h2, h3, h4 = lax.fori_loop(1, k, _hash_to_wide_step_u32, (h1, h2, h3, h4))
         return [h1, h2, h3, h4]
-- 
2.43.0


From 8f68a9317047383f9aa966e4a95230514c5f7bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 28/43] fix: unique_mask separates float keys of more than four
 columns

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 3515959..68b986f 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -24,6 +24,11 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
     if k <= max_direct_cols:
         return [keys[:, i] for i in range(k)]
 
+    if jnp.issubdtype(keys.dtype, jnp.floating):
+        # Hash the bit patterns: a cast to integers would merge e.g. 1.25 and 1.5.
+        keys = jnp.where(keys == 0, jnp.zeros_like(keys), keys)  # -0.0 equals 0.0
+        keys = lax.bitcast_convert_type(keys, f"uint{8 * keys.dtype.itemsize}")
+
     if use_x64:
         # 128-bit via two uint64
         h1 = keys[:, 0].astype(jnp.uint64)
-- 
2.43.0


From 5404d33bbd27fd3c3c8a12d231db93f1a53070eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 29/43] fix: unique_mask accepts boolean keys

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 68b986f..94774ca 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -174,7 +174,9 @@ def unique_mask(
     # 4. Handle filled: invalid items get MAX_KEY so they sort to the end
     for i in range(len(hashes)):
         dtype = hashes[i].dtype
-        if jnp.issubdtype(dtype, jnp.integer) or dtype == jnp.bool_:
+        if dtype == jnp.bool_:
+            max_val = jnp.array(True)
+        elif jnp.issubdtype(dtype, jnp.integer):
             max_val = jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
         elif jnp.issubdtype(dtype, jnp.floating):
             max_val = jnp.array(jnp.finfo(dtype).max, dtype=dtype)
-- 
2.43.0


From 9ff7db9c9959a4c039517b5430567bae94ae57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 30/43] fix: loop merge kernel uses pallas load/store functions
 that jax no longer has

---
 xtructure/bgpq/merge_split/loop.py | 64 ++++++------------------------
 1 file changed, 12 insertions(+), 52 deletions(-)

diff --git a/xtructure/bgpq/merge_split/loop.py b/xtructure/bgpq/merge_split/loop.py
index 7d491be..f9ce2d0 100644
--- a/xtructure/bgpq/merge_split/loop.py
+++ b/xtructure/bgpq/merge_split/loop.py
@@ -26,18 +26,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_a_casted = val_a_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_a_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_a_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = current_idx_a
         return current_idx_a + 1, current_idx_b
 
     def false_branch_body_fn(cond_operands):
@@ -52,18 +42,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_b_casted = val_b_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_b_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_b_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = n + current_idx_b
         return current_idx_a, current_idx_b + 1
 
     initial_main_loop_state = (
@@ -90,8 +70,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_a = pl.load(loop_ak_ref, (idx_a,))
-        val_b = pl.load(loop_bk_ref, (idx_b,))
+        val_a = loop_ak_ref[idx_a]
+        val_b = loop_bk_ref[idx_b]
         pred = val_a <= val_b
 
         updated_idx_a, updated_idx_b = jax.lax.cond(
@@ -153,20 +133,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_ak_ref, (current_idx_a,))
+        val_to_store = loop_ak_ref[current_idx_a]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = current_idx_a
         return (
             current_idx_a + 1,
             current_out_ptr + 1,
@@ -206,20 +176,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_bk_ref, (current_idx_b,))
+        val_to_store = loop_bk_ref[current_idx_b]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = n + current_idx_b
         return (
             current_idx_b + 1,
             current_out_ptr + 1,
-- 
2.43.0


From 3226b216118695f1987a10edfbfe7b42b5007138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 31/43] fix: loop merge of empty arrays

---
 xtructure/bgpq/merge_split/loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtructure/bgpq/merge_split/loop.py b/xtructure/bgpq/merge_split/loop.py
index f9ce2d0..e6121f3 100644
--- a/xtructure/bgpq/merge_split/loop.py
+++ b/xtructure/bgpq/merge_split/loop.py
@@ -210,6 +210,10 @@ def merge_arrays_indices_loop(
     m = bk.shape[0]
 
     key_dtype = jnp.result_type(ak.dtype, bk.dtype)
+    if n == 0 or m == 0:
+        merged = bk if n == 0 else ak
+        return merged.astype(key_dtype), jnp.arange(n + m, dtype=jnp.int32)
+
     out_keys_shape_dtype = jax.ShapeDtypeStruct((n + m,), key_dtype)
     out_idx_shape_dtype = jax.ShapeDtypeStruct((n + m,), jnp.int32)
 
-- 
2.43.0


From cb0e4fca4c2150288f2e74b796284e0dac513ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 32/43] fix: iterating an instance never ended

---
 xtructure/core/xtructure_decorators/shape.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index 2eb8754..af804b2 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -174,6 +174,19 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
 
     setattr(cls, "__len__", get_len)
 
+    def iterate(self):
+        """Yield the items along the first batch dimension.
+
+        Without this, Python's fallback indexes until an IndexError, which array
+        indexing never raises.
+        """
+        if self.shape.batch == ():
+            raise TypeError(f"Cannot iterate over a single {cls.__name__} instance.")
+        return (self[i] for i in range(len(self)))
+
+    if not hasattr(cls, "__iter__"):
+        setattr(cls, "__iter__", iterate)
+
     def get_structured_type(self) -> StructuredType:
         try:
             return self._structured_type_cache
-- 
2.43.0


From 3a3e55243a1b6a6f5a88e7bc36bf9ba15a590860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 33/43] fix: unpack and pack packed fields whose stored shape
 has leading axes (broadcast_intrinsic_shape)

---
 xtructure/core/xtructure_decorators/bitpack_accessors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index c03c5d6..fbee810 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -84,6 +84,8 @@ def _unpack_value(
 ):
     packed_bits = int(descriptor.packed_bits)  # type: ignore[arg-type]
     unpacked_shape = tuple(descriptor.unpacked_intrinsic_shape)  # type: ignore[arg-type]
+    # Storage axes in front of the byte stream (e.g. from broadcast_intrinsic_shape).
+    batch_shape = batch_shape + tuple(descriptor.intrinsic_shape[:-1])
     unpacked_dtype = descriptor.unpacked_dtype
     if unpacked_dtype is None:
         if packed_bits == 1:
@@ -167,6 +169,8 @@ def _pack_value(
 ):
     packed_bits = int(descriptor.packed_bits)  # type: ignore[arg-type]
     unpacked_shape = tuple(descriptor.unpacked_intrinsic_shape)  # type: ignore[arg-type]
+    # Storage axes in front of the byte stream (e.g. from broadcast_intrinsic_shape).
+    batch_shape = batch_shape + tuple(descriptor.intrinsic_shape[:-1])
 
     arr = jnp.asarray(unpacked_value)
     if arr.shape[: len(batch_shape)] != batch_shape:
-- 
2.43.0


From e3898f4210f5cf27ac4a42e40bd29fdbefa6f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 34/43] fix: batch shape was cut off when printing narrow or
 empty batches

---
 .../core/xtructure_decorators/string_format.py     | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/string_format.py b/xtructure/core/xtructure_decorators/string_format.py
index af6a8cd..c1f92ae 100644
--- a/xtructure/core/xtructure_decorators/string_format.py
+++ b/xtructure/core/xtructure_decorators/string_format.py
@@ -61,7 +61,14 @@ def add_string_representation_methods(cls: Type[T]) -> Type[T]:
                 else:
                     return Text.from_ansi(_single_item_formatter(current_state_slice))
 
-            table = Table(show_header=False, show_edge=False, box=None)
+            # Panels size themselves to content and title only: keep room for the subtitle.
+            subtitle = f"shape: {batch_shape}"
+            table = Table(
+                show_header=False,
+                show_edge=False,
+                box=None,
+                min_width=len(subtitle) + 2,
+            )
 
             # Handle 2D batches as a grid
             if len(batch_shape) == 2:
@@ -127,10 +134,13 @@ def add_string_representation_methods(cls: Type[T]) -> Type[T]:
                         results.append(get_slice_str(self[index]))
                 table.add_row(*results)
 
+            if not table.columns:
+                table.add_row("")
+
             panel = Panel(
                 table,
                 title=f"[yellow bold]Batched {cls.__name__}[/yellow bold]",
-                subtitle=f"[green bold]shape: {batch_shape}[/green bold]",
+                subtitle=f"[green bold]{subtitle}[/green bold]",
                 expand=False,
             )
             console.print(panel)
-- 
2.43.0


From ab9f5873ff30705a621c82f3fa89445bc6699715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 35/43] fix: key-value merge raises when one side is empty
 (priority queue of batch size 1)

---
 xtructure/bgpq/merge_split/parallel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xtructure/bgpq/merge_split/parallel.py b/xtructure/bgpq/merge_split/parallel.py
index b213a8e..0a65c42 100644
--- a/xtructure/bgpq/merge_split/parallel.py
+++ b/xtructure/bgpq/merge_split/parallel.py
@@ -332,6 +332,11 @@ def _get_merge_arrays_parallel_kv(
             ]
             return out_keys, out_vals
 
+        if n == 0 or m == 0:
+            key_dtype = jnp.result_type(ak.dtype, bk.dtype)
+            keys, leaves = (bk, bv_leaves) if n == 0 else (ak, av_leaves)
+            return keys.astype(key_dtype), list(leaves)
+
         key_dtype = jnp.result_type(ak.dtype, bk.dtype)
         ak = ak.astype(key_dtype)
         bk = bk.astype(key_dtype)
-- 
2.43.0


From c1bbcc5f5b9f846fcecdffd2b0bc92955eab322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 36/43] fix: batch insertion ranks priorities in their own
 dtype and never lets an unfilled row represent a filled one

---
 xtructure/hashtable/hash_utils.py | 45 +++++++++++++++++--------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 66433c8..b1e4a2e 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -96,6 +96,25 @@ def _first_occurrence_mask(
     return jnp.logical_and(mask, active)
 
 
+def _cheapest_filled_mask(
+    sorted_key: chex.Array,
+    sorted_filled: chex.Array,
+    group_id: chex.Array,
+    batch_len: int,
+) -> chex.Array:
+    """Mark the filled entries holding the smallest key of their group, in the key's own dtype."""
+    sorted_key = cast(jax.Array, jnp.asarray(sorted_key))
+    if sorted_key.dtype == jnp.bool_:
+        sorted_key = sorted_key.astype(jnp.uint8)
+    if jnp.issubdtype(sorted_key.dtype, jnp.integer):
+        largest = jnp.asarray(jnp.iinfo(sorted_key.dtype).max, dtype=sorted_key.dtype)
+    else:
+        largest = jnp.asarray(jnp.inf, dtype=sorted_key.dtype)
+    masked_key = jnp.where(sorted_filled, sorted_key, largest)
+    min_keys = jnp.full((batch_len,), largest).at[group_id].min(masked_key)
+    return jnp.logical_and(sorted_filled, masked_key == min_keys[group_id])
+
+
 def _compute_unique_mask_from_uint32eds(
     uint32eds: chex.Array,
     filled: chex.Array,
@@ -272,17 +291,10 @@ def _compute_unique_mask_from_uint32eds(
             raise ValueError("unique_key must match uint32eds leading dimension.")
 
         sorted_unique_key = unique_key_arr[sorted_indices]
-        masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
-        min_keys = (
-            jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
-            .at[group_id]
-            .min(masked_key)
-        )
-        candidate_indices = jnp.where(
-            masked_key == min_keys[group_id],
-            sorted_indices,
-            batch_len_i32,
+        is_cheapest = _cheapest_filled_mask(
+            sorted_unique_key, sorted_filled, group_id, batch_len
         )
+        candidate_indices = jnp.where(is_cheapest, sorted_indices, batch_len_i32)
     else:
         candidate_indices = jnp.where(sorted_filled, sorted_indices, batch_len_i32)
 
@@ -418,17 +430,10 @@ def _compute_unique_mask_from_hash_pairs(
                 raise ValueError("unique_key must match hash arrays leading dimension.")
 
             sorted_unique_key = unique_key_arr[sorted_indices]
-            masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
-            min_keys = (
-                jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
-                .at[group_id]
-                .min(masked_key)
-            )
-            candidate_indices = jnp.where(
-                masked_key == min_keys[group_id],
-                sorted_indices,
-                batch_len_i32,
+            is_cheapest = _cheapest_filled_mask(
+                sorted_unique_key, sorted_filled, group_id, batch_len
             )
+            candidate_indices = jnp.where(is_cheapest, sorted_indices, batch_len_i32)
         else:
             candidate_indices = jnp.where(sorted_filled, sorted_indices, batch_len_i32)
 
-- 
2.43.0


From c422d3a6a820cefb8e54a4463bc0d67e4603ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 37/43] fix: slot indices hold bucket sizes above 255

---
 xtructure/hashtable/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/hashtable/constants.py b/xtructure/hashtable/constants.py
index 039f80f..64481ba 100644
--- a/xtructure/hashtable/constants.py
+++ b/xtructure/hashtable/constants.py
@@ -1,7 +1,7 @@
 import jax.numpy as jnp
 
 SIZE_DTYPE = jnp.uint32
-SLOT_IDX_DTYPE = jnp.uint8
+SLOT_IDX_DTYPE = jnp.uint32
 DOUBLE_HASH_SECONDARY_DELTA = jnp.uint32(0x9E3779B1)
 FINGERPRINT_MIX_CONSTANT_A = jnp.uint32(0x85EBCA6B)
 FINGERPRINT_MIX_CONSTANT_B = jnp.uint32(0xC2B2AE35)
-- 
2.43.0


From aad37505f76559757eca4fe15e4f3dce925cff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 38/43] fix: accelerator insertion kernels only serve tables
 without a probe limit

---
 xtructure/hashtable/insert.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 4a62e1c..e0a734d 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -477,14 +477,22 @@ def _hashtable_parallel_insert_jit(
 
         updatable = jnp.logical_and(jnp.logical_not(found), unique_filled)
 
+        # The accelerator kernels probe every bucket, so they only fit a table whose
+        # lookups do too.
+        probes_all_buckets = table.max_probes > (table._capacity - 1) * (
+            table.bucket_size
+        )
+
         use_triton = (
             jax.default_backend() == "gpu"
+            and probes_all_buckets
             and table.bucket_size <= 32
             and triton_insert_enabled()
         )
 
         use_pallas = (
             jax.default_backend() == "tpu"
+            and probes_all_buckets
             and table.bucket_size <= 32
             and pallas_insert_enabled()
         )
-- 
2.43.0


From e3e356373569fad080d092f3ed9a3a7ae417d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 39/43] fix: conditional updates through a tuple of narrow
 index arrays reach the right positions

---
 xtructure/core/xtructure_numpy/array_ops.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index ffde097..a29acae 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -30,6 +30,13 @@ def _update_array_on_condition(
             positions = jnp.arange(flat_batch_size).reshape(batch_shape)
             raveled_indices = positions[indices]
         else:
+            # Flat positions may not be representable in a narrow index dtype.
+            indices = tuple(
+                index.astype(jnp.int32)
+                if jnp.issubdtype(index.dtype, jnp.integer) and index.dtype.itemsize < 4
+                else index
+                for index in map(jnp.asarray, indices)
+            )
             raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
 
         result = _update_array_on_condition(
-- 
2.43.0


From b22e038177738f3046ab4ca80f8606c78acc8030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 40/43] fix: unique_mask of an empty batch returns an index of
 the requested size

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 94774ca..a409ce8 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -145,7 +145,8 @@ def unique_mask(
             return final_mask
         returns = (final_mask,)
         if return_index:
-            returns += (jnp.zeros((0,), dtype=jnp.int32),)
+            pad = 0 if fill_value is None else fill_value
+            returns += (jnp.full((size or 0,), pad, dtype=jnp.int32),)
         if return_inverse:
             returns += (jnp.zeros((0,), dtype=jnp.int32),)
         return returns
-- 
2.43.0


From 80f40cff0b34a902e78a481527d96b4889585f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 41/43] fix: unique_mask accepts states whose fields all have
 zero size

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index a409ce8..2c213c3 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -21,6 +21,8 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
 
     # If k is small, no need to hash
     max_direct_cols = 2 if use_x64 else 4
+    if k == 0:  # nothing to tell the rows apart
+        return [jnp.zeros((n,), dtype=jnp.uint32)]
     if k <= max_direct_cols:
         return [keys[:, i] for i in range(k)]
 
-- 
2.43.0


From 767ac0f2814814e20081b1ad312d215b73541b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 42/43] fix: unique_mask separates states that differ in the
 top bits of their first two words

---
 .../unique_ops/optimized_unique_ops.py           | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 2c213c3..dcf0bc5 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -33,8 +33,8 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
 
     if use_x64:
         # 128-bit via two uint64
-        h1 = keys[:, 0].astype(jnp.uint64)
-        h2 = keys[:, 0].astype(jnp.uint64)
+        h1 = jnp.zeros((n,), dtype=jnp.uint64)
+        h2 = jnp.zeros((n,), dtype=jnp.uint64)
         c1 = jnp.uint64(0x9E3779B1)
         c2 = jnp.uint64(0x85EBCA6B)
 
@@ -49,14 +49,14 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
             hh2 = hh2 * c2 + col
             return hh1 ^ (hh1 >> 32), hh2 ^ (hh2 >> 29)
 
-        h1, h2 = lax.fori_loop(1, k, _hash_to_wide_step_u64, (h1, h2))
+        h1, h2 = lax.fori_loop(0, k, _hash_to_wide_step_u64, (h1, h2))
         return [h1, h2]
     else:
         # 128-bit via four uint32
-        h1 = keys[:, 0].astype(jnp.uint32)
-        h2 = keys[:, 0].astype(jnp.uint32)
-        h3 = keys[:, 0].astype(jnp.uint32)
-        h4 = keys[:, 0].astype(jnp.uint32)
+        h1 = jnp.zeros((n,), dtype=jnp.uint32)
+        h2 = jnp.zeros((n,), dtype=jnp.uint32)
+        h3 = jnp.zeros((n,), dtype=jnp.uint32)
+        h4 = jnp.zeros((n,), dtype=jnp.uint32)
         c1 = jnp.uint32(0x9E3779B1)
         c2 = jnp.uint32(0x85EBCA6B)
         c3 = jnp.uint32(0xC2B2AE35)
@@ -80,7 +80,7 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
                 hh4 ^ (hh4 >> 13),
             )
 
-        h1, h2, h3, h4 = lax.fori_loop(1, k, _hash_to_wide_step_u32, (h1, h2, h3, h4))
+        h1, h2, h3, h4 = lax.fori_loop(0, k, _hash_to_wide_step_u32, (h1, h2, h3, h4))
         return [h1, h2, h3, h4]
 
 
-- 
2.43.0


From b91ffac179b5a68d69b11e95580a3a2dd56a3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:24 +0000
Subject: [PATCH 43/43] fix: save writes fields called file or allow_pickle

---
 xtructure/io/io.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 785f216..b7c1862 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -3,6 +3,7 @@
 import dataclasses
 import importlib
 import os
+import zipfile
 from operator import attrgetter
 from typing import Any, Dict, Tuple
 
@@ -97,6 +98,21 @@ def _flatten_instance_for_save(
     return flat_data
 
 
+def _write_npz(path: str, arrays: Dict[str, np.ndarray]) -> None:
+    """Write what `np.savez_compressed` writes, whatever the arrays are called.
+
+    `np.savez_compressed` takes the arrays as keyword arguments, so fields called
+    like its own parameters (`file`, `allow_pickle`) would clash with them.
+    """
+    path = os.fspath(path)
+    if not path.endswith(".npz"):
+        path = f"{path}.npz"
+    with zipfile.ZipFile(path, "w", compression=zipfile.ZIP_DEFLATED) as archive:
+        for key, array in arrays.items():
+            with archive.open(f"{key}.npy", "w", force_zip64=True) as file:
+                np.lib.format.write_array(file, array)
+
+
 def save(path: str, instance: Xtructurable, *, packed: bool = True):
     """
     Saves an xtructure dataclass instance to a compressed .npz file.
@@ -126,7 +142,7 @@ def save(path: str, instance: Xtructurable, *, packed: bool = True):
         os.makedirs(directory, exist_ok=True)
 
     # Save to a compressed .npz file
-    np.savez_compressed(path, **data_to_save)
+    _write_npz(path, data_to_save)
 
 
 def _unflatten_data_for_load(
-- 
2.43.0

