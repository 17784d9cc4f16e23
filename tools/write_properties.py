"""Writes /verif/properties.jsonl (the list of properties lives here in an editable form)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


HT = "xtructure/hashtable/"
prop("P01", "Hash table equals a mathematical set over every insertion history",
     """After any sequence of single insertions, batched insertions and lookups that fits the capacity, a state is
     reported found exactly when an equal state was inserted earlier, an insertion reports 'inserted' exactly for
     states not already present (once per distinct state), and the reported size equals the number of distinct states
     inserted. This holds whatever hash values the states have (including full collisions), for every seed, bucket size
     and state layout, and the old table value is unchanged by any operation.""",
     ["histories", "inputs", "configurations"],
     """All histories of build / insert / parallel_insert (with masks) / lookup / lookup_parallel, all state contents,
     seeds, bucket sizes, layouts, and all hash-collision patterns (forced with user supplied weak hash functions).""",
     """The tests insert one random population per table and look it up; they do not compare a long mixed history to a
     model and almost never produce fingerprint, bucket or probe-step collisions, so collision handling goes unexercised.""",
     [HT + "insert.py", HT + "lookup.py", HT + "table.py", HT + "hash_utils.py"],
     [("double hashing probe + fingerprint then full compare", HT + "lookup.py:_hashtable_lookup_internal"),
      ("batch insertion with slot conflict resolution", HT + "insert.py:_hashtable_parallel_insert_internal"),
      ("single insertion", HT + "insert.py:_hashtable_insert_jit")],
     ["HashTable.insert/parallel_insert/lookup/lookup_parallel results", "table.size"])
prop("P02", "Hash-table handles are stable, unique and always retrieve the state",
     """The handle returned when a state is inserted, and the handle returned by every later successful single or
     parallel lookup of it, are the same for ever, retrieve exactly that state from the table, and differ from the
     handle of every other stored state. Storing further states never moves, alters or removes an already stored
     one, and slots of a bucket are filled without gaps up to the bucket's count.""",
     ["histories", "inputs", "configurations"],
     """All insertion histories and collision patterns; every handle ever returned is re-read after every later step.""",
     """Tests check retrieval right after one insertion, not that handles given out earlier stay valid and unaliased through
     later conflicting insertions.""",
     [HT + "insert.py", HT + "lookup.py", HT + "table.py"],
     [("slot assignment / scatter", HT + "insert.py:_resolve_slot_conflicts"),
      ("gather by handle", HT + "lookup.py:_hashtable_getitem_jit")],
     ["HashIdx returned by insert/lookup", "HashTable.__getitem__"])
prop("P03", "Batched insertion resolves duplicates, masks and priorities correctly",
     """In a batched insertion with any fill mask and optional priority keys, exactly one row per group of equal filled rows is the
     representative: the one with the smallest priority, ties and the no-priority case going to the lowest row index. Rows that
     are not filled never influence the table or the masks, every filled row receives the handle of its state, and the
     'inserted' mask is exactly the representatives whose state was not yet in the table.""",
     ["inputs", "histories", "configurations"],
     """All batches (any multiplicity pattern, mask, priorities with ties and infinities), all prior table contents and
     hash-collision patterns, and each lossless batch-deduplication mode.""",
     """Tests use a few hand written duplicate patterns with well spread hashes; they cannot cover mask x priority x
     collision x pre-existing-content combinations.""",
     [HT + "insert.py", HT + "hash_utils.py"],
     [("batch dedupe by sorted signature with collision fallback", HT + "hash_utils.py:_compute_unique_mask_from_hash_pairs"),
      ("batch dedupe by full rows", HT + "hash_utils.py:_compute_unique_mask_from_uint32eds"),
      ("representative propagation", HT + "insert.py:_hashtable_parallel_insert_jit")],
     ["HashTable.parallel_insert result tuple"])
prop("P04", "A nearly full, full or probe-limited hash table stays truthful",
     """When the table is nearly or completely full, when a batch exceeds the free space, or when a small probe limit is
     configured, an operation always terminates and whatever is reported inserted is afterwards found under the reported
     handle and counted in the size, while nothing is reported inserted that is not. States stored before are never lost,
     overwritten or duplicated, and a rejected state is simply reported as not inserted.""",
     ["histories", "inputs", "configurations"],
     """All histories that drive tiny tables to and past capacity, with any probe limit, bucket size and collision pattern.""",
     """Tests keep load factors far below the limit, so bucket spill-over, exhausted probe sequences and the overflow exits
     are not visited.""",
     [HT + "insert.py", HT + "lookup.py", HT + "table.py"],
     [("probe bound", HT + "lookup.py:_hashtable_lookup_internal"),
      ("insertion loop bound", HT + "insert.py:_hashtable_parallel_insert_internal"),
      ("probe step normalisation", HT + "hash_utils.py:_normalize_probe_step")],
     ["HashTable results", "table.size"])
prop("P05", "State hashing is a pure function of content and seed, equal on every route",
     """Equal states with equal seed hash identically through every route (single, pair, with or without the word view,
     eager, jitted, batched over any batch shape, after copying, slicing or re-stacking, streaming or materialised mode), and
     the first element of the hash pair is the plain hash. The byte and word views are injective: two states
     of one class with different field bits have different views, and changing any single field bit or the seed changes the hash
     except for chance collisions.""",
     ["inputs", "configurations", "programs"],
     """All class layouts (dtypes, shapes, nesting, packed and unpacked), all contents, all seeds, all hash configuration modes.""",
     """Tests compare a few fixed classes in the default mode; they cannot show every field/bit of every layout reaches the hash
     nor that the alternative modes agree on every layout.""",
     ["xtructure/core/xtructure_decorators/hash.py"],
     [("word conversion", "xtructure/core/xtructure_decorators/hash.py:byterize_hash_func_builder"),
      ("streaming hash", "xtructure/core/xtructure_decorators/hash.py:_hash_streaming_from_leaves")],
     ["instance.hash/hash_pair/hash_with_uint32ed/hash_pair_with_uint32ed", "instance.bytes", "instance.uint32ed"])
BG = "xtructure/bgpq/"
prop("P06", "Batched priority queue always returns the smallest keys",
     """Over any interleaving of batch insertions and batch deletions within capacity, each deletion returns the batch-size smallest
     keys currently stored in ascending order, padded with infinity when fewer remain, and no key is lost, duplicated or invented.
     The reported size always equals the number of finite keys stored, and older versions of the queue keep their contents.""",
     ["histories", "inputs", "configurations"],
     """All insert/delete histories, key multisets (ties, negatives, infinities as padding, all float widths), batch sizes
     including 1 and sizes that do not divide the capacity, partially filled batches.""",
     """The tests run fixed random workloads (mostly insert-all then delete-all); interleavings with partial batches and
     buffer boundaries at each heap size are a combinatorial space.""",
     [BG + "bgpq.py", BG + "_insert.py", BG + "_delete.py", BG + "_merge.py", BG + "_utils.py"],
     [("buffer merge", BG + "_insert.py:_bgpq_merge_buffer_jit"),
      ("heapify on insert", BG + "_insert.py:_bgpq_insert_heapify_internal"),
      ("heapify on delete", BG + "_delete.py"), ("path enumeration", BG + "_utils.py:_next")],
     ["BGPQ.insert/delete_mins results", "heap.size"])
prop("P07", "Priority-queue values never separate from their keys",
     """Every value returned with a finite key was inserted with exactly that key, and over any history each inserted key-value pair
     comes back exactly once, for flat, nested and array-valued value layouts and in every merge configuration. Packing
     an under-full batch keeps the given pairs in front, and fills the rest with infinite keys and default values.""",
     ["histories", "inputs", "configurations"],
     """All histories as for the key property with distinguishable values, value layouts, duplicate keys, and value-reorder modes.""",
     """Tests check key order and sometimes a value derived from the key; wrong pairing among equal keys or in rarely used
     leaf/field positions would pass.""",
     [BG + "_merge.py", BG + "_insert.py", BG + "_delete.py", BG + "_utils.py"],
     [("kv merge", BG + "_merge.py"), ("row scatter", BG + "_utils.py:_scatter_update_rows"),
      ("sort", BG + "_utils.py:sort_arrays"), ("batch padding", BG + "_insert.py:_bgpq_make_batched_jit")],
     ["BGPQ.delete_mins", "BGPQ.make_batched", "BGPQ.make_batched_like"])
prop("P08", "An overfull priority queue drops only whole surplus, never the minima",
     """Inserting a batch into a priority queue that is already full loses at most one batch worth of pairs, never any of the
     batch-size smallest pairs then present, and the largest lost key is at least as large as all remaining keys except fewer than one
     batch of them. All remaining pairs are returned later with their values in ascending order, and the size stays equal to
     the number of finite keys held and below the capacity plus one batch.""",
     ["histories", "inputs"],
     """All histories that reach or exceed capacity, then continue inserting and deleting.""",
     """One test overfills once and looks at the size; which elements survive at each fill level and later heap order are not
     examined.""",
     [BG + "_insert.py"],
     [("full-heap target selection", BG + "_insert.py:_bgpq_insert_heapify_internal")],
     ["BGPQ.insert then delete_mins until empty", "heap.size"])
prop("P09", "Queue is first-in first-out over every history",
     """Over any sequence of single or batched enqueue, dequeue, peek, indexed access and clear that respects the
     documented capacity, a queue returns exactly the enqueued items in order of arrival, its size is the number of items not yet
     dequeued, and clear makes it indistinguishable from a new one. Peeking or indexing never changes the queue, older queue
     values keep their contents, and results are the same inside a compiled program.""",
     ["histories", "inputs", "programs"],
     """All operation histories, batch sizes, capacities, item layouts, eager and jitted.""",
     """Tests walk one short script of operations; boundary interleavings (fill exactly, drain, clear, reuse) form a history space.""",
     ["xtructure/queue/queue.py"],
     [("enqueue", "xtructure/queue/queue.py:_queue_enqueue_jit"), ("dequeue", "xtructure/queue/queue.py:_queue_dequeue_jit")],
     ["Queue.dequeue/peek/[]/size"])
prop("P10", "Stack is last-in first-out over every history",
     """Over any sequence of single or batched push, pop, peek and indexed access within capacity, a stack returns the most recently
     pushed items that were not popped, in the documented order, and its size is the number of such items. Peeking or
     indexing never changes the stack, older stack values keep their contents, and results are the same inside a compiled program.""",
     ["histories", "inputs", "programs"],
     """All operation histories, batch sizes, capacities, item layouts, eager and jitted.""",
     """Tests walk one short script of operations; push-after-pop overwrites and batch boundaries form a history space.""",
     ["xtructure/stack/stack.py"],
     [("push", "xtructure/stack/stack.py:_stack_push_jit"), ("pop", "xtructure/stack/stack.py:_stack_pop_jit")],
     ["Stack.pop/peek/[]/size"])
prop("P11", "Saving and loading returns an identical instance",
     """For every dataclass layout and content, saving to a file and loading it back (through the module functions or the
     methods, with packing on or off) yields an instance of the same class whose every field is bit-for-bit equal in
     value, dtype and shape, including batch structure, nested and bit-limited fields. Saving does not alter the
     instance, and saving again replaces the earlier file completely.""",
     ["inputs", "configurations", "histories"],
     """All layouts (dtypes, intrinsic shapes, bit widths, nesting), batch shapes, contents (special floats, extreme integers) and path spellings.""",
     """Tests round-trip a couple of fixed classes with small fixed data.""",
     ["xtructure/io/io.py", "xtructure/core/xtructure_decorators/io.py"],
     [("flatten for save", "xtructure/io/io.py:_flatten_instance_for_save"), ("rebuild on load", "xtructure/io/io.py:_unflatten_data_for_load")],
     ["save(path, x); load(path)"])
prop("P12", "Bad files and wrong classes are refused on load, not misread",
     """Loading a missing file, a file that was not written by the library, a truncated or corrupted file, or loading through
     a class other than the one saved raises an error; it never returns an instance that differs from what was saved.
     Saving something that is not a dataclass instance is refused, and a failed load leaves the file untouched.""",
     ["inputs", "fault_sequences"],
     """All truncation points and byte corruptions of saved files, all foreign archives, all pairs of different classes.""",
     """Tests try one wrong class; damage positions are a large space.""",
     ["xtructure/io/io.py", "xtructure/core/xtructure_decorators/io.py"],
     [("metadata check", "xtructure/io/io.py:load"), ("class check", "xtructure/core/xtructure_decorators/io.py:load_method")],
     ["exceptions from load"])
AB = "xtructure/core/xtructure_decorators/aggregate_bitpack/"
prop("P13", "Whole-instance bit packing is lossless and partial decode agrees",
     """For every dataclass whose fields all declare bit widths, packing any in-range instance of any batch shape and unpacking gives
     back every field value exactly, with the storage size given by the published layout. Decoding a single field,
     or any chosen elements of it in any order, equals indexing the fully unpacked field.""",
     ["inputs", "programs", "configurations"],
     """All layouts of fields with widths 1..32 bits, shapes and nesting (fields straddling word and byte boundaries), all contents,
     batch shapes, index lists, output dtype policies.""",
     """Tests use a handful of layouts; straddling patterns depend on the sum of earlier widths and form a combinatorial space.""",
     [AB + "__init__.py", AB + "kernels.py", AB + "spec.py", AB + "view.py"],
     [("pack", AB + "kernels.py:pack_words_all_xla"), ("layout tables", AB + "spec.py:_build_word_contrib_tables"),
      ("decode", AB + "__init__.py:_decode_field")],
     ["x.packed", "x.packed.unpack()/as_original()/unpack_field()"])
prop("P14", "Bit-packed fields and raw bit packing are lossless",
     """For every bit width from 1 to 32 and every array of in-range values, packing to bytes and unpacking returns the same values
     and uses exactly the published number of bytes. A dataclass field stored in packed form shows
     through its unpacked view exactly the values it was built from or last set to, element positions and batch structure
     included, without disturbing other fields.""",
     ["inputs", "configurations", "histories"],
     """All widths, lengths (including not multiples of the block), contents, shapes, batch shapes, set/read histories.""",
     """Tests sample some widths with fixed lengths; width x length remainder combinations are many.""",
     [AB + "bitpack.py", "xtructure/core/xtructure_decorators/bitpack_accessors.py"],
     [("to bytes", AB + "bitpack.py:to_uint8"), ("from bytes", AB + "bitpack.py:from_uint8"),
      ("field pack", "xtructure/core/xtructure_decorators/bitpack_accessors.py:_pack_value")],
     ["to_uint8/from_uint8", "<field>_unpacked, set_unpacked, from_unpacked"])
DE = "xtructure/core/xtructure_decorators/"
prop("P15", "Construction, default values and shape reporting match the declaration",
     """For every declared layout and batch shape, default instances hold the declared (or documented dtype-specific) fill in every
     element, random instances have the declared dtypes and lie in the type's range and are reproducible from the key, and both
     have exactly batch shape followed by intrinsic shape in each field. The reported shape, batch shape, dtype, length, number of dimensions and
     single/batched/unstructured classification always agree with the actual field arrays.""",
     ["inputs", "programs"],
     """All layouts (dtype, intrinsic shape, fill, nesting), batch shapes, and instances with inconsistent batch shapes.""",
     """Tests cover a few declared classes and batch shapes.""",
     [DE + "default.py", DE + "shape.py", DE + "structure_util.py", "xtructure/core/field_descriptors.py"],
     [("default", DE + "default.py"), ("shape", DE + "shape.py"), ("random", DE + "structure_util.py")],
     ["cls.default, cls.random, x.shape, x.dtype, len(x), x.structured_type, x.ndim"])
prop("P16", "Indexing and functional updates act on every field and nothing else",
     """For every index expression valid for the batch, indexing an instance equals indexing each field array, and a
     functional update at an index returns an instance equal to updating each field array there, with scalars or instances as the
     new value. All other elements and the original instance are unchanged, and a conditional update changes only elements whose condition holds,
     the first true entry winning for repeated indices. Iterating over a batch gives exactly its items along the first batch axis, in order.""",
     ["inputs", "histories", "programs"],
     """All layouts, batch shapes, index expressions (ints, slices, masks, integer arrays, tuples, ellipsis), values and conditions.""",
     """Tests use a few index forms on fixed classes.""",
     [DE + "indexing.py", "xtructure/core/xtructure_numpy/array_ops.py"],
     [("getitem", DE + "indexing.py"), ("conditional update", "xtructure/core/xtructure_numpy/array_ops.py:_update_array_on_condition")],
     ["x[i]", "x.at[i].set(v)", "x.at[i].set_as_condition(c, v)"])
prop("P17", "Equality and comparison of instances follow the field contents",
     """Two instances of one class compare equal exactly when all fields are elementwise equal, inequality is its exact
     negation, and comparing with another type is never equal. The array-style comparison operations apply elementwise to
     each field with NumPy semantics, and all-close is true exactly when all fields are within tolerance.""",
     ["inputs", "programs"],
     """All layouts, contents (NaN, signed zero, one differing element in one leaf), batch shapes.""",
     """Tests flip one element of one class; a leaf ignored by comparison in another layout would pass.""",
     [DE + "ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/comparison_ops.py"],
     [("eq", DE + "ops.py"), ("elementwise", "xtructure/core/xtructure_numpy/dataclass_ops/comparison_ops.py")],
     ["==, !=, xnp.equal/not_equal/isclose/allclose"])
prop("P18", "Instances are faithful pytrees under every JAX transformation",
     """For every layout, flattening and unflattening, mapping over leaves, passing through jit, vmap, scan, cond and while loops, device
     transfer, copying, pickling and field replacement return instances equal to doing the same to the individual field arrays. Field order, class, static fields and
     nested classes are preserved, and equal inputs hit one compiled program while different static fields do not share results.""",
     ["inputs", "programs", "configurations"],
     """All layouts, nesting, static fields, batch shapes and compositions of transformations.""",
     """Tests apply a few transformations to fixed classes.""",
     ["xtructure/core/dataclass.py"],
     [("registration", "xtructure/core/dataclass.py:register_dataclass_type_with_jax_tree_util"), ("replace/pickle", "xtructure/core/dataclass.py:_Dataclass.__call__")],
     ["jax.tree_util, jax.jit, jax.vmap, lax.scan, pickle, replace"])
prop("P19", "Validation accepts exactly the conforming instances",
     """With validation enabled, constructing an instance succeeds exactly when every field has the declared dtype, trailing
     intrinsic shape and nested type and passes its own validators, and otherwise raises the matching type or value error naming the field. The explicit invariant check gives the same verdict whether
     or not construction-time validation is enabled, and validation never alters data. A nested value must be an instance of the declared
     class; its own contents are judged by that class.""",
     ["inputs", "programs", "fault_sequences"],
     """All layouts and all single-fault mutations of conforming argument sets (dtype, rank, dimension, nested type, validator).""",
     """Tests check a couple of faulty constructions.""",
     [DE + "validation.py"],
     [("check", DE + "validation.py:_validate_array_field")],
     ["constructor exceptions, x.check_invariants()"])
XN = "xtructure/core/xtructure_numpy/dataclass_ops/"
prop("P20", "Shape operations act on batch axes like NumPy, never on field axes",
     """For every layout, batch shape and valid argument, reshaping, flattening, transposing, moving, swapping, adding, removing, broadcasting, repeating, flipping,
     rolling and rotating axes of an instance equals the NumPy operation on a plain array of batch positions applied to
     every field, leaving intrinsic field axes and values intact. This holds for batch axes counted from the front (for negative or omitted axes too, where
     every field is a scalar), and impossible reshapes, transpositions, axis swaps, broadcasts and squeezes raise an error.""",
     ["inputs", "programs"],
     """All layouts with differing intrinsic ranks, batch ranks 0..4, all valid axis arguments and orders.""",
     """Tests check resulting shapes for two or three classes and mostly 1-D batches.""",
     [XN + "shape_ops.py", XN + "spatial_ops.py", "xtructure/core/xtructure_numpy/__init__.py"],
     [("batch-axis handling", XN + "shape_ops.py"), ("spatial", XN + "spatial_ops.py")],
     ["xnp.reshape/flatten/transpose/... results"])
prop("P21", "Joining, splitting, padding and tiling preserve every element in order",
     """Concatenating, stacking, padding and splitting instances place each element exactly where NumPy places the
     corresponding batch position, in every field, with pads filled by the class defaults (or the given value), and tiling repeats every
     field array as NumPy does. Splitting and rejoining gives back the original, and concatenating or stacking mismatched classes, structures or batch shapes is refused.""",
     ["inputs", "programs"],
     """All layouts, numbers and sizes of inputs, axes, pad widths and tile counts.""",
     """Tests use two or three inputs of one shape and check shapes and a few elements.""",
     [XN + "batch_ops.py", "xtructure/core/xtructure_numpy/__init__.py"],
     [("concat/stack/pad/tile/split", XN + "batch_ops.py")],
     ["xnp.concat/stack/pad/tile/split/... results"])
prop("P22", "Selection picks the right element of every field",
     """Conditional selection, strict conditional selection, take, take-along-axis and conditional scatter return, in every field and batch position, exactly the element
     the condition or index designates, and scatter applies the first true update for each target and leaves other elements untouched.
     The strict form refuses operands that differ in class, shape or dtype and conditions of another shape.""",
     ["inputs", "programs"],
     """All layouts, batch shapes, conditions, index arrays (with repeats), scalar and instance operands, faulty operand pairs.""",
     """Tests check a few hand-made masks; interactions of repeated indices with masks form a large space.""",
     [XN + "logical_ops.py", XN + "batch_ops.py", "xtructure/core/xtructure_numpy/array_ops.py"],
     [("where", XN + "logical_ops.py"), ("conditional scatter", "xtructure/core/xtructure_numpy/array_ops.py:_update_array_on_condition"),
      ("strict where", "xtructure/core/xtructure_numpy/array_ops.py:_where_no_broadcast")],
     ["xnp.where/where_no_broadcast/take/take_along_axis/update_on_condition"])
prop("P23", "Unique mask marks exactly one cheapest row per distinct state",
     """For every batch, the unique mask selects exactly one filled row of each group of equal states: the row with the smallest
     key, ties and the keyless case going to the lowest index, and never an unfilled row. The optional first-index and inverse outputs are
     consistent with the mask, so that reading the representative rows through the inverse reproduces the batch.""",
     ["inputs", "configurations"],
     """All layouts (including wide and bit-packed states), multiplicity patterns, near-equal rows, keys with ties and infinities, fill masks, custom key functions.""",
     """Tests use small integer classes; collisions of internal signatures on wide states and mask/key corner cases are not sampled.""",
     [XN + "unique_ops/optimized_unique_ops.py"],
     [("row signature", XN + "unique_ops/optimized_unique_ops.py:_hash_to_wide"), ("group leader selection", XN + "unique_ops/optimized_unique_ops.py:unique_mask")],
     ["xnp.unique_mask results"])
prop("P24", "Method, function and compiled forms agree",
     """Every array-style operation offered both as an instance method and as a module function gives identical results in both
     forms, and eager, jitted and vmapped execution of operations and of the data structures give identical results. No
     operation modifies its inputs.""",
     ["inputs", "programs"],
     """All layouts, contents, arguments, operations.""",
     """Tests check some methods exist; agreement for all operations and layouts is not sampled.""",
     [DE + "method_factory.py", "xtructure/core/xtructure_numpy/__init__.py"],
     [("method injection", DE + "method_factory.py")],
     ["x.op(...) vs xnp.op(x, ...)"])
prop("P25", "Elementwise fills and type conversions reach every field exactly",
     """Zero-like, one-like and full-like give instances of the same class and shapes with exactly the requested value in every element
     and, absent a request, unchanged dtypes; type conversion changes each field to the requested dtype with NumPy's conversion of the
     values. Result-type and castability queries answer what the field dtypes imply.""",
     ["inputs", "programs"],
     """All layouts, target dtypes, fill values, batch shapes.""",
     """Tests use one class and one dtype.""",
     [XN + "fill_ops.py", XN + "type_ops.py"],
     [("fills", XN + "fill_ops.py"), ("types", XN + "type_ops.py")],
     ["xnp.zeros_like/ones_like/full_like/astype/result_type/can_cast"])
prop("P26", "Sorted-merge primitives produce the complete sorted order",
     """For any two ascending key arrays of any lengths, each merge routine of the priority queue returns the ascending merge of all keys together
     with indices that address every input element exactly once and point at the key returned in that place. All routines
     agree on the keys, on equal keys the first array's elements come first, and elements of one array keep their order.""",
     ["inputs", "configurations"],
     """All pairs of sorted arrays: lengths (also unequal), ties, infinities, dtypes.""",
     """Tests use a few random pairs of equal length without boundary ties.""",
     [BG + "merge_split/loop.py", BG + "merge_split/parallel.py", BG + "merge_split/split.py", BG + "merge_split/common.py"],
     [("loop merge", BG + "merge_split/loop.py"), ("parallel merge path", BG + "merge_split/parallel.py"), ("sort merge", BG + "merge_split/split.py")],
     ["merge_arrays_indices_loop, merge_arrays_parallel, merge_sort_split_idx"])
prop("P27", "Tuning switches never change observable results",
     """Running the same history of hash-table, priority-queue, hashing and bit-packing operations under any
     combination of documented lossless tuning switches gives the same reported results: same membership, masks, sizes, keys,
     key-value pairings and unpacked values. The only permitted differences are which equal-priority pair comes first
     and which handle a state receives. A switch is read without regard to case, and a value it does not know is refused with a ValueError.""",
     ["configurations", "histories"],
     """All combinations of the environment switches usable on this platform, crossed with operation histories.""",
     """The test suite runs under a single configuration.""",
     [HT + "hash_utils.py", BG + "_constants.py", DE + "hash.py", AB + "__init__.py"],
     [("dedupe modes", HT + "hash_utils.py"), ("value reorder / sort stability", BG + "_constants.py"), ("hash aggregation mode", DE + "hash.py")],
     ["results of one history in differently configured processes"])
prop("P28", "Field-descriptor utilities derive exactly the requested descriptor",
     """A descriptor reports exactly the attributes it was declared with (an omitted fill value is the dtype's sentinel). Cloning it, or changing or
     broadcasting its intrinsic shape, yields a new descriptor equal to the original in every attribute not overridden (the fill value included) and leaves the
     original unchanged; classes built from derived descriptors behave as if declared directly, and a broadcast packed field still unpacks and packs losslessly.
     Invalid declarations are refused: bit widths that are not integers in 1..32, both a fill value and a factory, a packed tensor without a shape or with two
     different ones, a subscript of 0 or more than 3 items, annotations that are not descriptors, unsupported field types.""",
     ["inputs", "programs"],
     """All descriptors (dtype, shape, fill, bits, nested types) and override combinations.""",
     """Tests check two or three derivations.""",
     ["xtructure/core/field_descriptors.py", "xtructure/core/field_descriptor_utils.py"],
     [("derive", "xtructure/core/field_descriptor_utils.py"), ("validate", "xtructure/core/field_descriptors.py")],
     ["clone_field_descriptor, with_intrinsic_shape, broadcast_intrinsic_shape, descriptor_metadata"])
prop("P29", "Printing any instance succeeds and shows the selected data",
     """Converting any instance of any layout and batch shape to text succeeds without changing it, also under jit and when its leaves are inconsistent
     (then it says Unstructured). A single instance shows every field's name and value. A batch shows its class and batch shape and, on a terminal wide enough, exactly its
     leading and trailing elements with all their values: along the flattened batch, or per axis of a two-dimensional one, with a mark where the middle is left out.
     A custom single-item formatter is applied to exactly the elements shown and receives the keyword arguments given to x.str().""",
     ["inputs", "programs"],
     """All layouts, batch shapes (below and above the abbreviation limit), custom formatters.""",
     """Tests print one or two instances.""",
     [DE + "string_format.py"],
     [("format", DE + "string_format.py")],
     ["str(x)"])
XN = "xtructure/core/xtructure_numpy/"
prop("P30", "On ordinary arrays the operations are jax.numpy's",
     """Called on ordinary arrays or scalars, every operation of the numpy-like module accepts and refuses the same arguments (axes, modes, dtypes, sizes, fill values, ...) as the
     jax.numpy function of that name and returns the same values, shapes and dtypes, eagerly and under jit. Joining, selecting or updating refuses a mixture of instances and
     arrays, or of instances of different structure, with a TypeError, and joining refuses an empty list with a ValueError, leaving the operands unchanged.""",
     ["inputs", "configurations"],
     """All operations, array ranks, dtypes, keyword arguments in and out of range, container and mixture kinds.""",
     """Tests check a handful of operations on one array each; arguments passed through to jax.numpy are hardly exercised.""",
     [XN + "__init__.py"],
     [("dispatch between instances and arrays", XN + "__init__.py"), ("homogeneity of operands", XN + "__init__.py:_check_homogeneous_inputs")],
     ["results of xnp functions on arrays"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
