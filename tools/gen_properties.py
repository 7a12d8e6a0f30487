#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def path(f):
    return f if f.startswith(("tools/", "CMakeLists")) else "include/cista/" + f
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [path(f) for f in files],
                          "mechanism": [{"name": n, "where": path(w)} for n, w in mech],
                          **({"observe_at": observe} if observe else {}),
                          "hook_needed": None}})

p("C01", "Serialization round-trips every supported value",
  "For every value of a supported type (aggregates, scalars, enums, arrays, strings, vectors, vector maps, optionals, variants, tuples, pairs, unique pointers, hash maps and sets, bit containers, nested vectors, multimaps, strong types, and any nesting of them) and every combination of mode flags, serializing and then deserializing (checked or unchecked, in offset or raw representation) yields an equal value. Deserialization of an untouched buffer never throws, and the serialized source value is left unchanged.",
  ["inputs", "configurations"],
  "all values of the supported types up to the generated size, all pointer representations, all subsets of the version/integrity/static-version/deep-check/unchecked/skip mode flags",
  "The tests serialize a few dozen hand-written values with one or two modes each; the space of nestings, sizes, alignments and mode combinations is unbounded.",
  ["serialization.h", "targets/buf.h", "containers/vector.h", "containers/string.h", "containers/hash_storage.h", "containers/variant.h", "containers/optional.h", "reflection/to_tuple.h"],
  [("serialize", "serialization.h: serialize(Ctx&, T const*, offset_t) overloads"),
   ("deserialize", "serialization.h: deserialize / convert_endian_and_ptr / check_state / recurse"),
   ("buffer target", "targets/buf.h: buf::write")])
p("C02", "Pointers keep identity, sharing, cycles and null across serialization",
  "For every object graph, pointers between serialized objects (owning pointers; plain pointers to elements of indexed vectors and to their members, to indexed values, to objects owned by unique pointers; forward, backward, shared, cyclic or null) point to the corresponding objects of the deserialized graph. Pointers to objects that are not part of the serialized graph, and untyped pointers, come back as null.",
  ["inputs"],
  "all finite object graphs with shared, cyclic, forward, backward, null and dangling edges, in offset and raw representation",
  "The tests contain three fixed graphs; ordering of pointer resolution (before/after the pointee was written) depends on the shape of the graph.",
  ["serialization.h", "indexed.h", "containers/unique_ptr.h", "containers/offset_ptr.h"],
  [("pending offsets", "serialization.h: serialization_context::resolve_pointer / pending_, offsets_, vector_ranges_"),
   ("pointer restore", "serialization.h: deserialization_context::convert_endian_and_ptr / check_ptr")])
p("C03", "All serialization targets and inputs are equivalent",
  "For every value and mode, serializing into a growable buffer, a memory-mapped buffer and a file produces the same bytes, and reading the file back (buffered read or mapping) returns exactly those bytes, which deserialize to the same value. Later overwrites of already written bytes, alignment padding, file checksums and chunked reads and writes behave the same on each target, for any size and offset, also after a target was moved, or closed and reopened. An overwrite beyond the end is refused without changing anything, and bytes that the file system did not take are reported as an error.",
  ["inputs", "configurations"],
  "all values, modes, and sequences of aligned appends and back-patches on each target, including sizes around the chunk size",
  "The tests write one small struct to each target; chunk boundaries, checksum ranges and back-patches over large ranges are never crossed.",
  ["targets/buf.h", "targets/file.h", "buffer.h", "mmap.h", "chunk.h"],
  [("buf target", "targets/buf.h: buf::write/checksum"), ("file target", "targets/file.h: file::write/checksum/read"),
   ("chunking", "chunk.h: chunk")])
p("C04", "Big-endian mode round-trips and stores big-endian integers",
  "For every supported value, serializing with the big-endian mode and deserializing with it yields an equal value, and every integer, size field and length stored in the buffer is in big-endian byte order regardless of the host. The header fields for version and integrity are subject to the same conversion, so all mode combinations work with big-endian data.",
  ["inputs", "configurations"],
  "all values of types supported in big-endian mode, all mode combinations that include the big-endian flag",
  "The tests have one endian conversion test on a flat struct; containers, offsets, hash tables and nested data in this mode are not covered.",
  ["serialization.h", "endian/conversion.h", "endian/detection.h"],
  [("conversion on write", "serialization.h: convert_endian<Mode>"), ("conversion on read", "serialization.h: convert_endian_and_ptr"),
   ("byte swap", "endian/conversion.h: endian_swap")])
p("C05", "The integrity check rejects every corrupted buffer",
  "Data serialized with the integrity flag is rejected with an exception when any byte of the payload or of the stored checksum is changed, or when the payload is truncated or extended, before any of it is interpreted. Unmodified data is always accepted, and skipping the check explicitly accepts data regardless of the checksum.",
  ["inputs", "fault_sequences"],
  "all values, all single and multiple byte or bit corruptions and all truncations and extensions, with and without version headers",
  "The tests flip bytes at one fixed position of one buffer.",
  ["serialization.h", "hash.h", "targets/buf.h", "targets/file.h"],
  [("checksum on write", "serialization.h: serialize (integrity block)"), ("check on read", "serialization.h: check<T, Mode>")])
p("C06", "The version check accepts exactly data of the same type",
  "Data serialized with a version flag is accepted when read as the same type and rejected with an exception when read as a type of different structure (field types, order, arity, integer width, container kind or element type, array size, enum underlying type). Type hashes depend only on the structure: they are equal on repeated evaluation and for identically structured types (the dynamic hash also between programs built with different compilers), and the static and the dynamic hash both tell different structures apart, at any nesting depth. The dynamic hash also terminates and works for recursive types.",
  ["inputs", "programs"],
  "all ordered pairs from a generated family of types, both hash flavours, with the header and payload corrupted or not",
  "The tests compare a handful of type pairs and hard-coded hash values.",
  ["type_hash/type_hash.h", "type_hash/static_type_hash.h", "type_hash/type_name.h", "serialization.h"],
  [("dynamic hash", "type_hash/type_hash.h: type_hash"), ("static hash", "type_hash/static_type_hash.h: static_type_hash"),
   ("header check", "serialization.h: check<T, Mode>")])
p("C07", "Checked deserialization of hostile bytes never escapes the buffer",
  "For every byte sequence, checked deserialization (in native byte order, of non-recursive types built from scalars, strings, C strings, vectors, unique pointers, optionals, variants, tuples, arrays, pairs, hash tables and plain pointers) either throws an exception or yields a value in which every reachable pointer, string, vector, hash table, optional and variant lies completely inside the buffer and is correctly aligned, so that walking the whole value accesses no memory outside of it. It never crashes, reads or writes out of bounds, or hangs; this holds with and without deep checks and for buffers shorter than the root object.",
  ["inputs"],
  "all byte strings: random bytes, and mutations (offsets, sizes, flags, bytes, splices, truncation) of serialized values of a family of non-recursive types in offset representation, and of flat types in raw representation",
  "The tests corrupt a few hand-picked fields; the reachable corruptions are combinatorial. The property is exactly about every input.",
  ["serialization.h", "containers/offset_ptr.h", "containers/hash_storage.h"],
  [("bounds checks", "serialization.h: deserialization_context::check_ptr / check_bool / require"),
   ("per-container checks", "serialization.h: check_state overloads"),
   ("deep checks", "serialization.h: deserialize with DEEP_CHECK")])
p("C08", "Deserialized values can be modified like freshly built ones",
  "A value deserialized in place supports the same modifications as a freshly built one (growing, shrinking, inserting, erasing, assigning, swapping, copying out, moving out) with the same results, and never frees or overruns the buffer it lives in (data that refers to the buffer without owning it, such as string views, and the release of memory that in-place modifications of contained elements allocate, are excepted). Copies taken from it are independent of the buffer, and serializing the modified value again round-trips.",
  ["histories", "inputs"],
  "all sequences of container modifications on deserialized values, compared to the same sequence on a model",
  "The tests modify one or two deserialized values in fixed ways.",
  ["containers/vector.h", "containers/string.h", "containers/hash_storage.h", "containers/unique_ptr.h", "containers/offset_ptr.h"],
  [("ownership flag", "containers/vector.h: self_allocated_"), ("ownership flag", "containers/hash_storage.h: self_allocated_"),
   ("ownership flag", "containers/string.h: heap.self_allocated_")])
p("C09", "Vectors behave like std::vector",
  "For every sequence of operations (push/emplace/pop, single, counted and range insertion with any iterator category, erasure, resize, reserve, assignment, copy, move, swap, element access, comparison), contents, sizes, returned positions and exceptions agree with a standard vector. Every element is constructed, moved and destroyed exactly once with its destructor run before its storage is reused, for trivial, non-trivial and move-only elements and for every size type up to its maximum; what would exceed that maximum is refused, with nothing lost.",
  ["histories"],
  "all operation sequences (single values may be elements of the same vector), element types: scalar, aggregate, string, nested vector, move-only, lifetime-tracked; raw and offset pointers; 8, 16 and 32 bit size types",
  "The tests check individual inserts on three-element int vectors.",
  ["containers/vector.h", "next_power_of_2.h", "allocator.h"],
  [("growth", "containers/vector.h: reserve"), ("insertion", "containers/vector.h: insert overloads"), ("erasure", "containers/vector.h: erase")])
p("C10", "Strings behave like standard strings",
  "For every sequence of assignments, constructions, copies, moves and appends on owning strings, non-owning string views and C-style strings (inline, heap and non-owning storage, every character width), contents, length, views, iteration, comparison, ordering, stream output and (for char strings) hash agree with a standard string of the same contents - also for contents with embedded zero characters, and when an owning string is assigned a part of itself. Non-owning strings that are too long to be stored inline refer to the caller's memory, owning ones never do, and C-style strings are always zero-terminated. More characters than the length can hold are refused, with the content kept.",
  ["histories", "inputs"],
  "all operation sequences over contents of any length around the inline limits, including zero characters (nul characters are not written into an inline string through references)",
  "The tests use a handful of literals.",
  ["containers/string.h", "containers/cstring.h"],
  [("short string optimisation", "containers/string.h: generic_string::set_owning / set_non_owning / is_short"),
   ("cstring", "containers/cstring.h: generic_cstring")])
p("C11", "Hash maps and sets behave like standard maps and sets",
  "For every sequence of insertions, lookups, erasures, overwrites, clears, rehashes, copies, moves, swaps and iterations on a hash map or set, the contents, sizes, return values and exceptions agree with a standard associative container, whatever the hash values of the keys are. Iteration visits every element exactly once, and all of this still holds for a table that was serialized and deserialized in between.",
  ["histories", "inputs"],
  "all operation histories over key sets with arbitrary (including heavily colliding) hashes and element types with and without heap storage",
  "The existing randomized check uses one key type, one hash and no erase-iterate, copy, swap or serialization interleavings.",
  ["containers/hash_storage.h", "containers/hash_map.h", "containers/hash_set.h", "hashing.h"],
  [("probing and tombstones", "containers/hash_storage.h: find_impl / find_or_prepare_insert / erase_meta_only"),
   ("growth", "containers/hash_storage.h: rehash_and_grow_if_necessary / resize")])
p("C12", "Bitsets behave like std::bitset",
  "For every bitset size above zero and every sequence of set, reset, and, or, xor, complement and shift operations, the bits, count, any, none, comparison, ordering, string conversion and iteration over set bits agree with a standard bitset. Bits beyond the size that the storage has room for never influence any of these results, even if they were set. Of a string with more digits than the bitset has bits, the last (lowest) digits count.",
  ["histories", "inputs"],
  "sizes from 1 to several words, including word-size multiples and off-by-one sizes; all operation sequences and shift distances",
  "The tests use a few sizes with hand-written patterns; the bundled fuzz program is run on a fixed seed with a single size.",
  ["containers/bitset.h", "bit_counting.h"],
  [("tail handling", "containers/bitset.h: sanitized_last_block"), ("shifts", "containers/bitset.h: operator<<= / operator>>=")])
p("C13", "Dynamic bit vectors behave like a vector of bits",
  "For every sequence of resizes, sets, resets, complements, bitwise combinations of equally long vectors, shifts, string conversions and iterations on a bit vector, the bits, size, count, any/none, comparisons of equally long vectors, next-set-bit queries and set-bit iteration agree with a plain vector of booleans. Bits beyond the size never influence any observable result.",
  ["histories", "inputs"],
  "sizes from 0 to several words, word-size multiples and off-by-one sizes; all operation sequences",
  "The tests use hand-written patterns at a few sizes.",
  ["containers/bitvec.h", "bit_counting.h"],
  [("tail handling", "containers/bitvec.h: sanitized_last_block"), ("queries", "containers/bitvec.h: next_set_bit / for_each_set_bit / count")])
p("C14", "Nested vectors behave like vectors of vectors",
  "For every sequence of bucket insertions, appends to the last or to any bucket (where the structure allows it), resizes, clearing and element writes on the nested-vector containers (two levels, any fixed depth, and paged with growable buckets) and the flat matrix, the buckets, sizes, element access, iteration (both directions, including nested bucket iterators), and comparison of buckets agree with a vector of vectors. Out-of-range access through the checked accessors throws, and what the index type cannot count is refused, with nothing lost.",
  ["histories"],
  "all operation histories; empty buckets, depths 2 to 4, bucket sizes crossing every page size, raw and offset representation",
  "The tests build a few small containers by hand.",
  ["containers/vecvec.h", "containers/nvec.h", "containers/paged_vecvec.h", "containers/paged.h", "containers/flat_matrix.h"],
  [("offset tables", "containers/vecvec.h: bucket_starts_"), ("n levels", "containers/nvec.h: index_"),
   ("paging", "containers/paged.h: paged; containers/paged_vecvec.h")])
p("C15", "Index multimaps behave like a map from index to sequence",
  "For every history of insertions (by key, in any order where the structure allows it), in-place bucket edits, reservations, removals and iterations, the frozen and the mutable index multimap return for each key exactly the sequence of values a map from index to vector holds, with matching sizes, element counts and iteration order. Bucket references stay correct when other buckets are relocated and their storage is recycled.",
  ["histories"],
  "all operation histories over several keys, bucket growth across powers of two, recycled buckets; raw and offset representation",
  "The tests build three small maps by hand; one fuzz program is never checked against mixed histories with erasure and re-insertion.",
  ["containers/fws_multimap.h", "containers/mutable_fws_multimap.h"],
  [("frozen index", "containers/fws_multimap.h: finish_key / operator[]"), ("relocation and free lists", "containers/mutable_fws_multimap.h: prepare_insert / release_bucket / free_buckets_")])
p("C16", "Spatial index queries agree with brute force",
  "For every history of insertions and deletions of points and rectangles, with minimum at most maximum in every dimension, a range search reports exactly the stored entries whose rectangle intersects the query, each once, with its data, and stops when the visitor asks to. Deleting removes exactly one matching entry and leaves the others findable, and all answers stay the same after the index is serialized and deserialized.",
  ["histories", "inputs"],
  "all insert/delete/search histories including duplicates, degenerate rectangles and equal coordinates, over enough entries to force splits and joins on several levels, 1 to 3 dimensions",
  "The fuzz program only inserts and deletes by one pattern; tests use a few entries so that no inner node is ever split.",
  ["containers/rtree.h"],
  [("split and choose", "containers/rtree.h: split / node_insert / choose"), ("delete", "containers/rtree.h: delete_0 / node_delete")])
p("C17", "Variants hold exactly one live alternative",
  "For every sequence of constructions, assignments (of the same or another alternative, by copy and move), emplacements, swaps, copies and moves, a variant reports the index, value and held-type of the most recent assignment, visiting calls exactly the matching overload, and comparison, hashing and checked access agree with a standard variant (the value of a moved-from variant is unspecified). Every alternative object is constructed and destroyed exactly once.",
  ["histories"],
  "all operation sequences over variants of trivial, lifetime-tracked, and heap-owning alternatives",
  "The tests check isolated assignments between a few alternatives.",
  ["containers/variant.h"],
  [("dispatch", "containers/variant.h: apply"), ("assignment", "containers/variant.h: operator= / emplace / destruct")])
p("C18", "Optionals, unique pointers, tuples and pairs have value semantics",
  "For every sequence of constructions, assignments, resets, moves and swaps, optionals report presence and value like a standard optional, unique pointers own at most one object and release it exactly once, and tuples and pairs hold their elements in order with the standard comparison results. No contained object is leaked, duplicated bytewise, or destroyed twice.",
  ["histories", "inputs"],
  "all operation sequences over scalar, lifetime-tracked and heap-owning element types",
  "The tests check isolated constructions.",
  ["containers/optional.h", "containers/unique_ptr.h", "containers/tuple.h", "containers/pair.h"],
  [("optional storage", "containers/optional.h: optional"), ("ownership flag", "containers/unique_ptr.h: basic_unique_ptr"),
   ("tuple layout", "containers/tuple.h: tuple")])
p("C19", "Equal values hash equally, and ordering is a strict total order",
  "For every pair of values the generic equality agrees with field-wise comparison, equal values have equal hashes (also across equivalent key forms such as owning strings, string views and C strings, and across equal values with different histories or representations), and the hash takes every field, element, position and length into account: single scalars, strings, and short sequences and aggregates of small non-negative numbers are told apart; with the default hash, changing one scalar anywhere in a nested value changes its hash, and the hash of bytes is their 64-bit FNV-1a hash continued from the given seed. Hash tables are equal and hash equally regardless of their history. The generated comparison operators of aggregates are consistent with each other and with lexicographic order of the fields.",
  ["inputs"],
  "all pairs of generated values of nested aggregates, containers, strings, variants, optionals, bit containers, tuples, raw and offset",
  "The tests hash a few constants.",
  ["hashing.h", "equal_to.h", "hash.h", "reflection/comparable.h"],
  [("hash", "hashing.h: hashing"), ("equality", "equal_to.h: equal_to"), ("comparison macros", "reflection/comparable.h")])
p("C20", "Reflection sees every member of an aggregate, in order, exactly once",
  "For every aggregate type with up to the supported number of members, the computed arity, the tuple view, field iteration (by reference, by pointer, with index), member indices and member offsets cover every member exactly once, in declaration order, with its exact type and address; writing through the view changes the object. Printing shows every field once, in order.",
  ["programs", "inputs"],
  "a generated family of aggregates of every supported arity with members of mixed types, nested aggregates, arrays, inherited and explicit member lists, with arbitrary values",
  "The tests check arities of a handful of structs.",
  ["reflection/arity.h", "reflection/to_tuple.h", "reflection/for_each_field.h", "reflection/member_index.h", "reflection/printable.h", "cista_member_offset.h"],
  [("arity", "reflection/arity.h"), ("destructuring", "reflection/to_tuple.h")])
p("C21", "Memory-mapped buffers and vectors persist exactly what was written",
  "For every sequence of writes, appends, resizes, reservations, moves and re-openings, a memory-mapped file or mapped vector has the contents a byte array or vector with the same history has, before and after closing and reopening it, in every protection mode. Synchronizing writes the whole mapping back, reserved space is used before the mapping moves, nothing stays mapped or open after closing. The file on disk has exactly the logical size after closing, and read-only mappings refuse every modification and never modify the file. A value written to a file reads back equal into memory or through a mapping, and a holder keeps it alive and unchanged, also when moved, until it is reset or destroyed, which destroys an owned value exactly once.",
  ["histories"],
  "all histories of resize/reserve/write/close/reopen, sizes around page boundaries, all protection modes",
  "The tests write one fixed string once.",
  ["mmap.h", "containers/mmap_vec.h", "memory_holder.h", "buffer.h"],
  [("mapping", "mmap.h: mmap::resize / sync / ~mmap"), ("mapped vector", "containers/mmap_vec.h")])
p("C22", "Offset pointers behave like plain pointers and survive relocation",
  "For every sequence of assignments, copies, increments, differences, comparisons, casts and dereferences, an offset pointer behaves like the plain pointer to the same object, including null and pointers to itself. A block of memory that contains offset pointers into itself can be moved as a whole and all of them then refer to the corresponding places of the new block.",
  ["histories", "inputs"],
  "all operation sequences on arrays of offset pointers in a relocatable block, typed and untyped, const and mutable",
  "The tests check a few fixed pointers.",
  ["containers/offset_ptr.h", "containers/ptr.h"],
  [("encoding", "containers/offset_ptr.h: ptr_to_offset / offset_to_ptr"), ("operators", "containers/offset_ptr.h: offset_ptr operators")])
p("C23", "Atomic helpers and concurrent bit claiming are linearizable",
  "The free-standing atomic or, and, minimum and maximum operations return the previous value, have exactly the effect of their plain counterpart, and lose no update when several threads use them at once. Several threads that set bits, or claim numbers from a shared counter, of one bit vector or counter in the concurrent mode lose no bit and never hand out one number twice.",
  ["schedules", "inputs"],
  "all operand values, all interleavings reached by repeated threaded runs on up to eight threads",
  "The tests perform single-threaded sample operations.",
  ["atomic.h", "containers/bitvec.h"],
  [("atomics", "atomic.h: fetch_or / fetch_and / fetch_min / fetch_max"), ("atomic set", "containers/bitvec.h: set / get_next")])
p("C24", "Bit, power-of-two, chunk, byte-swap and alignment helpers are exact",
  "For every operand of every supported width, population count, leading and trailing zero count, power-of-two rounding and byte swapping equal their mathematical definition; splitting a range into chunks covers every byte exactly once in order with no chunk above the limit; aligned allocation returns writable memory with the requested alignment; reading a value from an arbitrarily aligned address returns that value.",
  ["inputs"],
  "all operand values (boundary-biased), all chunk sizes and ranges, all power-of-two alignments, all misalignments",
  "The tests check a few constants.",
  ["bit_counting.h", "next_power_of_2.h", "endian/conversion.h", "chunk.h", "aligned_alloc.h", "aligned_allocator.h", "serialization.h"],
  [("bit counting", "bit_counting.h"), ("chunk", "chunk.h: chunk"), ("aligned alloc", "aligned_alloc.h: aligned_alloc"),
   ("unaligned copy", "serialization.h: copy_from_potentially_unaligned")])
p("C25", "Strong types behave exactly like their underlying type",
  "For every operation (construction, conversion, arithmetic, bitwise operations, shifts, increment and decrement, comparison, std::hash, printing, use as index) on strongly typed values, the result is the one the underlying type gives for the same operands, wrapped in the same strong type. The invalid value is distinguishable from every other value, and strong types serialize as their underlying value.",
  ["inputs"],
  "all operand pairs (boundary-biased) of several underlying widths and all operators",
  "The tests use strong types only as container keys with a few small values.",
  ["strong.h"],
  [("operators", "strong.h: strong operators"), ("conversion", "strong.h: to_idx / base_t")])
p("C26", "Offset and raw serialized data is position independent and size-exact",
  "A serialized offset buffer can be copied to any suitably aligned address, mapped at different addresses or embedded at an aligned position, and reads the same there; deserializing the same bytes twice gives equal values, and reading never modifies offset data except for the declared in-place conversions. The reported serialized size of a type equals the bytes it occupies at the root, and every object in the buffer is placed at its required alignment without overlapping another.",
  ["inputs", "configurations"],
  "all generated values of nested container types and modes, several relocations per value",
  "The tests deserialize each buffer once, at the address it was produced.",
  ["serialization.h", "serialized_size.h", "containers/offset_ptr.h", "targets/buf.h"],
  [("alignment on write", "targets/buf.h: buf::write"), ("offset pointers", "containers/offset_ptr.h"),
   ("serialized_size", "serialized_size.h")])

p("C27", "Containers reuse freed storage and grow in amortized constant time",
  "For every history of insertions and removals, the storage a container holds stays proportional to what was in use at the same time, not to the number of operations: hash tables keep their capacity within a constant factor of the largest number of elements, bucketed containers (mutable multimap, paged vectors of vectors) never hold more blocks of a size class than were in use at once, the spatial index never more nodes, a vector never room for more than twice its largest size or reservation. Appending relocates elements an amortized constant number of times, appending within reserved room and moving a container none at all. Where a container reports the memory it occupies, that is what it took from the heap.",
  ["histories"],
  "all histories of insertions, removals, clears, resizes and refills on each container with a bounded number of live elements, of any length",
  "The tests insert and remove a handful of elements once and never look at the storage.",
  ["containers/hash_storage.h", "containers/mutable_fws_multimap.h", "containers/paged.h", "containers/paged_vecvec.h", "containers/rtree.h", "containers/vector.h", "containers/mmap_vec.h", "containers/vecvec.h", "containers/bitvec.h"],
  [("growth of tables", "containers/hash_storage.h: rehash_and_grow_if_necessary"), ("free lists", "containers/mutable_fws_multimap.h: release_bucket, containers/paged.h: free_page, containers/rtree.h: add_to_free_list"),
   ("growth of vectors", "containers/vector.h: reserve")])

p("C28", "The single header is equivalent to the headers it is made from",
  "The single header that is published (written by the uniter from a list of headers) gives a program exactly what including the headers in that order gives: every line of every file they need, directly or indirectly, appears exactly once, after what it needs and in the order in which a compiler would see it, whatever the shape of the include graph (shared and cyclic includes, files listed more than once or included by other listed files). Includes of files from elsewhere (system headers, third-party libraries) and all other directives are kept, and the license is at the top as a comment, for the headers of the library in every supported configuration.",
  ["configurations"],
  "all include graphs of headers with include-once guards, all lists of the library's headers in any order, for every compiler, language standard and configuration macro",
  "The tests are compiled with the headers; the single header is not tried with optional third-party libraries, other hash functions or other lists of headers.",
  ["tools/uniter/uniter.cc", "CMakeLists.txt"],
  [("expansion", "tools/uniter/uniter.cc: write_file"), ("list of published headers", "CMakeLists.txt: cista.h")])

p("C29", "Failed allocations and failed file operations are reported and corrupt nothing",
  "For every history of operations and every point at which an allocation or a system call (opening, reading, writing, seeking, growing, mapping or syncing a file) fails: the operation throws; an operation that adds to a container (vector, string, hash table, bit vector, nested vector, multimap, spatial index, mapped file or vector) leaves its content exactly as it was, one that replaces content leaves a valid object, copying leaves the source as it was and the target valid; no memory, element, file or mapping is leaked; and the container can be used as before afterwards. An operation that does not throw has done all of its work: a file that was written without an error is complete.",
  ["fault_sequences", "histories"],
  "all histories of operations on each container and file type, with any one of the allocations or system calls of each operation failing",
  "No test makes an allocation or a system call fail.",
  ["containers/vector.h", "containers/hash_storage.h", "containers/string.h", "containers/cstring.h", "containers/bitvec.h", "containers/vecvec.h", "containers/nvec.h", "containers/mutable_fws_multimap.h", "containers/paged.h", "containers/paged_vecvec.h", "containers/rtree.h", "containers/mmap_vec.h", "mmap.h", "targets/file.h", "targets/buf.h", "io.h", "buffer.h", "aligned_alloc.h"],
  [("growth of vectors", "containers/vector.h: reserve, set, resize"), ("growth of tables", "containers/hash_storage.h: initialize_entries, resize"),
   ("growth of mappings", "mmap.h: resize_map"), ("file errors", "targets/file.h: write, content, checksum")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
