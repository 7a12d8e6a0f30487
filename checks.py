"""What each property's check builds and runs."""
NOT_APPLICABLE = {}
_WRAP = ["-Wl,--wrap=malloc,--wrap=aligned_alloc,--wrap=free"]
_MODEL_NOTE = ("Generated histories against an independent reference model after every step, "
               "under AddressSanitizer and UBSan with allocation accounting; explores, does not prove. ")
_SER_NOTE = ("Round trips of generated values, compared through an independent canonical dump, under "
             "AddressSanitizer and UBSan on an exactly sized copy of the buffer; explores, does not prove. ")


def _rt(prefix, groups, extra=()):
    return [{"name": "%s_%s%d" % (prefix, ns, g), "src": "roundtrip.cc", "opt": "-O0",
             "defs": ["CISTA_FNV1A=1", "NS=cista::" + ns, "GROUP=%d" % g, *extra]}
            for g in groups for ns in ("offset", "raw")] + [
        {"name": prefix + "_many", "src": "many.cc", "opt": "-O0", "flags": ["-fbracket-depth=1024"],
         "defs": ["CISTA_FNV1A=1", "NS=cista::offset", *extra]}]


CHECKS = {
    "C01": {
        "bins": _rt("rt", (1, 2, 3, 4, 5)),
        "rule": "a value of one of 27 root types (19 simple roots in 12 mode pairs, 8 rich nested types in 4) serialized, deserialized and compared; non-trivial = its canonical dump is longer than 30 characters and it contains more than one container element",
        "note": _SER_NOTE,
    },
    "C02": {
        "bins": [{"name": "graph_" + ns, "src": "graph.cc", "opt": "-O0", "defs": ["CISTA_FNV1A=1", "NS=cista::" + ns]} for ns in ("offset", "raw")],
        "rule": "a random object graph (nodes in an indexed vector, owned by unique pointers and by a hash map; pointers of five types held in members, vectors, maps, optionals, variants, arrays, pairs, tuples; forward, backward, shared, cyclic, null, dangling, one past the end) serialized and deserialized; non-trivial = more than four non-null pointers into the graph and at least three nodes",
        "note": "Graphs are compared through labels of the pointees computed independently on both sides; under AddressSanitizer; explores, does not prove. Pointers to the inside of an object are only generated where the library resolves them: members of elements of indexed vectors.",
    },
    "C03": {
        "bins": [{"name": "targets_" + h, "src": "targets.cc", "opt": "-O0", "defs": ["CISTA_%s=1" % h],
                  "flags": ["-I$REPO/tools/wyhash", "-I$REPO/tools/xxh3", "-DXXH_INLINE_ALL"]}
                 for h in ("FNV1A", "XXH3", "WYHASH")],
        "rule": "a sequence of aligned and unaligned appends, back-patches and checksums applied to buffer, file and mmap targets and to a byte string model, or a generated value serialized to all three and read back in five ways; non-trivial = more than two appends and a back-patch, or a value of more than 60 dumped characters",
        "note": "Compared byte for byte, for three of the configurable hash functions; files live in a scratch directory; explores, does not prove. Errors of the file system are not injected.",
    },
    "C04": {
        "bins": _rt("be", (1, 2, 3, 4, 5), ["BIG_ENDIAN_CHECK"]),
        "rule": "a value of one of 25 root types serialized in big-endian and in native mode: the big-endian buffer read back gives an equal value; every integer, size and length of the value has its bytes reversed in the big-endian buffer; headers are big-endian; non-trivial = as for C01",
        "note": _SER_NOTE + "Floating point and enum fields are only required to round-trip: the library never swaps them.",
    },
    "C05": {
        "bins": [{"name": "integrity_%s%d%s" % (ns, g, h), "src": "integrity.cc", "opt": "-O0",
                  "defs": ["CISTA_%s=1" % (h or "FNV1A"), "NS=cista::" + ns, "GROUP=%d" % g],
                  "flags": ["-I$REPO/tools/wyhash", "-I$REPO/tools/xxh3", "-DXXH_INLINE_ALL"]}
                 for ns, g, h in (("offset", 1, ""), ("offset", 2, ""), ("raw", 1, ""), ("raw", 2, ""),
                                  ("offset", 1, "XXH3"), ("offset", 1, "WYHASH"))],
        "rule": "a generated value serialized with the integrity flag and read back unchanged, with a damaged checksum and the check skipped, and after up to six rounds of damage (bit and byte changes anywhere from the checksum on, several changes, truncation, extension, swapped regions, dropped bytes); non-trivial = the damaged bytes differ from the original",
        "note": _SER_NOTE + "A damaged buffer whose 64 bit checksum collides would be a false alarm (probability below 1e-12 over all runs).",
    },
    "C06": {
        "bins": [{"name": "hash%d_%s" % (k, ns), "src": "version.cc", "opt": "-O0", "san": "none",
                  "gen": ["gen_types.py", "$SEED%d" % k, 90],
                  "defs": ["CISTA_FNV1A=1", "NS=cista::" + ns], **({"probes": ["known_struct_boundary"]} if k == 1 else {})}
                 for k, ns in ((1, "offset"), (2, "offset"), (3, "raw"))] +
                [{"name": "other%d" % k, "src": "version.cc", "opt": "-O0", "san": "none",
                  "gen": ["gen_xcomp.py", "$SEED1%d" % k, 60, *what], "defs": ["CISTA_FNV1A=1"]} for k, what in ((0, ()), (1, ("leaves",)))] +
                [{"name": "leaves", "src": "version.cc", "opt": "-O0", "san": "none",
                  "gen": ["gen_types.py", "$SEED9", 90, "leaves"], "defs": ["CISTA_FNV1A=1"]}] +
                [{"name": "header%d_%s" % (k, ns), "src": "version.cc", "opt": "-O0", "san": "none",
                  "gen": ["gen_types.py", "$SEED%d" % k, 26, "novar"],
                  "defs": ["CISTA_FNV1A=1", "HEADERS", "NS=cista::" + ns]}
                 for k, ns in ((4, "offset"), (5, "offset"), (6, "offset"), (7, "raw"))],
        "rule": "pairs of types of a generated family (random nestings of 17 type constructors up to depth 4, with a renamed copy and up to four structural mutants each, a fresh family per seed): hashes equal iff structures equal, data written as one type and read as the other accepted iff equal, damaged versions rejected; non-trivial = two different types",
        "note": "Program generation: C++ sources of random types are generated, compiled against the tree and compared; explores, does not prove. Not distinguished by design and not compared: signedness of integers, bitset sizes with equal block counts, tags of strong types (static hash); known finding: boundaries of nested structs.",
    },
    "C07": {
        "bins": [{"name": "hostile_%s%d" % (ns, g), "src": "hostile.cc", "opt": "-O0",
                  "defs": ["CISTA_FNV1A=1", "NS=cista::" + ns, "GROUP=%d" % g, *(["RAW"] if ns == "raw" else [])]}
                 for ns in ("offset", "raw") for g in (1, 2, 3)],
        "rule": "a serialized value of one of 16 types with one to six hostile changes (pointers, sizes, consistent sizes, flags, control bytes, indices, data, words, splices, truncation, extension), or random bytes, deserialized with or without deep checks and headers: an exception, or every object reachable from the result lies inside the buffer; non-trivial = the data was accepted and the whole value was visited",
        "note": "On an exactly sized buffer under AddressSanitizer, with an independent walk over the accepted value; explores, does not prove. Not covered because the library does not validate them: index tables inside of nested vectors, multimaps, bit vectors and the spatial index; recursive types; overlapping objects with raw pointers without the deep check.",
    },
    "C09": {
        "bins": [{"name": "vec", "src": "vec.cc"}],
        "rule": "random operation sequences on two vectors, compared to std::vector after every step; non-trivial = at least one reallocation and one insert or erase before the end",
        "note": _MODEL_NOTE + "Ranges of the same vector as argument are outside the domain.",
    },
    "C11": {
        "bins": [{"name": "hashtab%d" % g, "src": "hashtab.cc", "defs": ["CISTA_FNV1A=1", "GROUP=%d" % g],
                  **({"probes": ["known_move_assign_leak"]} if g == 1 else {})} for g in (1, 2, 3)],
        "rule": "random operation sequences on two tables (15 key/value kinds, 8 hash functions including constant and tag-only ones), compared to std::map after every step, with serialization in between; non-trivial = elements erased, new ones inserted afterwards, and more than seven elements at some point",
        "note": _MODEL_NOTE + "The target of a move assignment is emptied first (known finding).",
    },
    "C08": {
        "bins": [{"name": "modify_%s%d" % (ns, g), "src": "modify.cc", "opt": "-O0",
                  "defs": ["CISTA_FNV1A=1", "NS=cista::" + ns, "GROUP=%d" % g]}
                 for ns in ("offset", "raw") for g in (1, 2)],
        "rule": "a generated value is serialized and deserialized; up to 12 random edits (every container operation, at any depth) are applied to both, with equal choices, and compared after each; non-trivial = at least three edits changed the value and it contains heap storage",
        "note": _SER_NOTE,
    },
    "C17": {
        "bins": [{"name": "variant%d" % g, "src": "variant.cc", "opt": "-O0", "defs": ["CISTA_FNV1A=1", "GROUP=%d" % g]} for g in (1, 2)]
              + [{"name": "variant%d_gcc20" % g, "src": "variant.cc", "cxx": "gcc", "std": "c++20", "thorough_only": True,
                  "defs": ["CISTA_FNV1A=1", "GROUP=%d" % g]} for g in (1, 2)],
        "rule": "random operation sequences on three variants of one of 13 kinds (trivial, lifetime-tracked, heap-owning, move-only, throwing, repeated and up to 40 alternatives), compared to a model after every step; non-trivial = at least two assignments of the held and of another alternative and one move",
        "note": _MODEL_NOTE + "The value of a moved-from variant is not specified.",
    },
    "C12": {
        "bins": [{"name": "bitset", "src": "bits.cc", "defs": ["CISTA_FNV1A=1", "GROUP=12"]}],
        "rule": "random operation sequences on three bitsets of one of 20 sizes (1 to 513), compared to std::bitset and a vector of booleans after every step; non-trivial = at least one complement, one shift and one bitwise combination",
        "note": _MODEL_NOTE + "Size 0 is outside the domain. The hash includes the whole storage block, so hashes are not compared once bits beyond the size were set.",
    },
    "C13": {
        "bins": [{"name": "bitvec", "src": "bits.cc", "defs": ["CISTA_FNV1A=1", "GROUP=13"]}],
        "rule": "random operation sequences on three bit vectors (two representations, two block widths, strong keys), compared to vectors of booleans after every step; non-trivial = at least two resizes, one complement and one shift or combination",
        "note": _MODEL_NOTE + "Ordering and bitwise operations on bit vectors of different sizes are outside the domain.",
    },
    "C14": {
        "bins": [{"name": n, "src": "nested.cc", "defs": ["CISTA_FNV1A=1", "GROUP=%d" % g]} for g, n in ((1, "vecvec"), (2, "nvec"), (3, "paged"), (4, "matrix"))],
        "rule": "random operation sequences on one container of one of 21 kinds (two-level vectors, nested vectors of depth 2 to 4, paged vectors with pages of 2 to 32768 elements, flat matrices; trivial, string and lifetime-checking elements), compared to vectors of vectors after every step; non-trivial = at least two buckets and two kinds of size change or writes",
        "note": _MODEL_NOTE + "Arguments that refer to the container's own elements are outside the domain; a bucket passed as a non-const lvalue may be moved from.",
    },
    "C15": {
        "bins": [{"name": "multimap", "src": "multimap.cc"}],
        "rule": "random histories on one frozen or mutable index multimap of one of 10 kinds, compared to a vector of vectors after every step, with the invariants that live buckets never share storage and that freed storage is reused; non-trivial = at least two relocations, one recycled bucket and one in-place edit (frozen: at least three keys, one of them empty)",
        "note": _MODEL_NOTE + "Access to an unfinished frozen multimap is outside the domain.",
    },
    "C16": {
        "bins": [{"name": "rtree", "src": "rtree.cc"}],
        "rule": "random histories of insertions and deletions (six coordinate distributions with many duplicates, shared edges and empty rectangles) on one index of one of 9 kinds (one to three dimensions, float, double, signed and unsigned coordinates, 2 to 64 entries per node, offset, raw and memory-mapped), full-range and random range searches compared to brute force after every step; non-trivial = more insertions than fit in one node, and deletions",
        "note": _MODEL_NOTE + "Rectangles have min <= max in every dimension, coordinates are numbers small enough for areas not to overflow integers.",
    },
    "C18": {
        "bins": [{"name": "objects", "src": "objects.cc"}],
        "rule": "random operation sequences on three optionals, unique pointers, tuples or pairs of one of 33 element-type combinations (scalars, over-aligned, lifetime-tracked, heap-owning, move-only, nested), compared to the standard counterpart and to a count of live objects after every step; non-trivial = values set and cleared (optionals), objects made and moved (pointers), copied or moved (tuples), unequal (pairs)",
        "note": _MODEL_NOTE + "The value of a moved-from object is unspecified (a moved-from unique pointer is null). Move-assigning an optional or tuple to itself is outside the domain.",
    },
    "C19": {
        "bins": [{"name": "hasheq%d" % g, "src": "hasheq.cc", "defs": ["CISTA_FNV1A=1", "GROUP=%d" % g]} for g in (1, 2)]
        + [{"name": "hasheq%d_%s" % (g, n.lower()), "src": "hasheq.cc", "san": "asan", "defs": ["CISTA_%s=1" % n, "GROUP=%d" % g], "flags": ["-I$REPO/tools/wyhash", "-I$REPO/tools/xxh3"], "thorough_only": t}
           for n, t in (("WYHASH", False), ("XXH3", True), ("WYHASH_FASTEST", True)) for g in (1, 2)],
        "rule": "triples of generated values of one of 63 types, half of them equal, each built in a different way (construction histories, leftover storage, padding, inline and heap text, table insertion orders), compared to equality, order and hash equality of the plain values they stand for; with FNV-1a and WYHASH (quick) and XXH3 and FastestHash (thorough); non-trivial = at least two of the three values differ",
        "note": _MODEL_NOTE,
    },
    "C20": {
        "bins": [{"name": "reflect%d" % k, "src": "reflect.cc", "opt": "-O0", "control": "CONTROL",
                  "san": "asan" if k == 1 else "none", "cxx": "gcc" if k == 2 else "clang",
                  "std": "c++20" if k == 3 else "c++17", "gen": ["gen_reflect.py", "$SEED", k, 6]} for k in range(6)],
        "rule": "a value of a generated aggregate (every arity 0..64 each run, a fresh family of random member types per seed out of 44, plus types with explicit shuffled/partial member lists, with a base class, and printable ones) filled with random values and inspected through every reflection function, with one member rewritten through the view; non-trivial = at least two members",
        "note": "Program generation: the oracle is an explicit list of the members emitted next to each type. If the family does not compile with the reflection functions but compiles without calling them, that is reported as a violation too. Outside the domain: C-array members, classes with converting constructors from anything, bit fields, bases without an explicit member list, compilers other than clang 18 and gcc 13.",
    },
    "C21": {
        "bins": [{"name": "mmap", "src": "mmap.cc", "san": "asan"},
                 {"name": "mmap_gcc20", "src": "mmap.cc", "san": "asan", "cxx": "gcc", "std": "c++20", "thorough_only": True}],
        "rule": "a history of up to 60-80 operations (open in every protection mode, resize, reserve, write, sync, move, move over an open mapping, close, reopen; for vectors push_back, emplace_back, insert of elements and of forward/input ranges, set, indexed writes; read-only attempts; files that hold values with holders moved around) against byte strings / std::vector / value models, with the bytes on disk compared after every close; non-trivial = something non-empty was reopened (value histories: loaded)",
        "note": "Every mapping is in a scratch directory. Bytes that reappear when a mapping shrinks and grows again without being closed are unspecified. Not covered: the Windows implementation, failing system calls (disk full), mapping one file twice for writing, rewriting a file while it is mapped, holder reset of a value in a read-only mapping, keys narrower than 32 bits (do not compile).",
    },
    "C22": {
        "bins": [{"name": "optr", "src": "offsetptr.cc", "san": "asan"},
                 {"name": "optr_gcc20", "src": "offsetptr.cc", "san": "asan", "cxx": "gcc", "std": "c++20", "opt": "-O2"},
                 {"name": "optr_gcc", "src": "offsetptr.cc", "san": "none", "cxx": "gcc", "opt": "-O3", "thorough_only": True}],
        "rule": "a history of up to 80 operations (assignment, copy, move, swap, increments, sums, differences, comparisons, dereferences, conversions, pointers to pointers, to themselves, to bases, containers of pointers) on offset pointers in a block of memory, every one with a plain twin, with the whole block moved to other (also overlapping) addresses in between; non-trivial = at least five operations and one relocation",
        "note": "Compound assignment (+=) and negative subscripts are not offered by the type. Pointers out of the block are dropped before it is moved.",
    },
    "C23": {
        "schedule": True,
        "bins": [{"name": "atomics17", "src": "atomics.cc", "san": "none", "opt": "-O2"},
                 {"name": "atomics20", "src": "atomics.cc", "san": "none", "opt": "-O2", "std": "c++20", "cxx": "gcc"},
                 {"name": "atomics_tsan", "src": "atomics.cc", "san": "tsan"},
                 {"name": "atomics_tsan20", "src": "atomics.cc", "san": "tsan", "std": "c++20"}],
        "rule": "a generated program for 1-8 threads: sequential calls with arbitrary operands; small programs whose returned values must be explained by an interleaving (searched exhaustively); storms of 400+ updates per thread on shared cells whose returned values must form a chain; concurrent sets on one bit vector; concurrent claiming; non-trivial = at least two threads and something to do (sequential: a value changed)",
        "note": "Schedules are the ones the operating system and contention produce, with ThreadSanitizer in half of the binaries; they are sampled, not enumerated. Claiming while bits are being set is outside the contract (bits are read without synchronization), as are bit vectors with blocks other than 64 bits in the concurrent mode (do not compile).",
    },
    "C24": {
        "bins": [{"name": "numeric", "src": "numeric.cc"},
                 {"name": "numeric_o2", "src": "numeric.cc", "defs": ["NO_SAN=1"], "san": "none", "opt": "-O2", "cxx": "gcc", "std": "c++20"}],
        "rule": "operands of every supported width (single bits, runs, complements, neighbours of powers of two, random) against bit-by-bit and byte-by-byte definitions; generated chunk sizes and ranges; sequences of aligned allocations; containers on the aligned allocator against std containers; serialized values read at every misalignment of 0..64; non-trivial = the operand is not zero / the range has several chunks / the address is misaligned",
        "note": "Zero has no power of two and no compile-time trailing zero count; power-of-two and multiple rounding are checked where the result is representable. Reading big endian data from unaligned memory is rejected at compile time by the library.",
    },
    "C25": {
        "bins": [{"name": "strong17", "src": "strongtypes.cc"},
                 {"name": "strong20", "src": "strongtypes.cc", "cxx": "gcc", "std": "c++20"},
                 {"name": "strong_fmt", "src": "strongtypes.cc", "san": "none", "defs": ["CISTA_FMT=1"]}],
        "rule": "boundary-biased operand pairs of ten underlying types through every operator, constructor and conversion, compared to the same operation on the plain values (operations undefined there are not executed); operation sequences on containers indexed or keyed by strong types; records with strong members serialized and read as the record with plain members and vice versa; non-trivial = both operands are not zero / containers hold something",
        "note": "cista::hashing of a strong value is built on its std::hash, so it is a function of the value but not the hash of the plain value. Formatting through {fmt} is that of the stream operator.",
    },
    "C26": {
        "bins": [{"name": "pos_%s%d" % (ns, g), "src": "position.cc", "opt": "-O0",
                  "defs": ["CISTA_FNV1A=1", "NS=cista::" + ns, "GROUP=%d" % g]} for g in (1, 2, 3, 4) for ns in ("offset", "raw")],
        "rule": "a value of one of 19 root types serialized in one of three modes, the bytes copied to three positions at generated distances from a 64 byte boundary, moved (overlapping and to other memory) after having been read, repeated in one target behind a prefix, and mapped twice read-only; the placement of every piece of storage is computed from the deserialized value; non-trivial = more than three pieces of storage (offset: and more than one value in the target)",
        "note": _SER_NOTE + "Moving, several values in one target and mapping only for offset data (raw data is read relative to the start of the target and refers to addresses once read).",
    },
    "C27": {
        "bins": [{"name": "reuse", "src": "reuse.cc"}],
        "rule": "random histories of insertions and removals on hash tables, multimaps, paged buckets, spatial indexes and vectors holding a bounded number of elements, with the storage and the number of relocations compared to what was in use at the same time; non-trivial = more removals than the structure holds elements (growth: more than a hundred appends)",
        "note": _MODEL_NOTE + "Storage is read from the public capacities; its bound is computed from the history (per power-of-two class for bucketed storage).",
    },
    "C28": {
        "bins": [{"name": "uniter", "src": "uniter.cc", "san": "none",
                  "gen": ["gen_uniter.py"], "flags": ["-DREPO_DIR=\"$REPO\""]}],
        "rule": "a generated tree of 1-10 headers including each other (shared, cyclic, several roots, conditional code, files from elsewhere) united and compared to an independent expansion and, through g++ and clang++, to the preprocessed headers; or random headers of the library under a random compiler, standard and configuration, united and preprocessed against the originals; non-trivial = at least two files and five lines, or more than 60 (library: 1000) characters of tokens",
        "note": "Preprocessed tokens are compared, so that whatever a program can do with the headers it can do with the single header; explores, does not prove. Own headers included conditionally, and include directives inside raw strings or not at the start of a line, are outside the domain.",
    },
    "C29": {
        "bins": [{"name": "faults", "src": "faults.cc", "libs": _WRAP},
                 {"name": "iofaults", "src": "iofaults.cc", "libs": _WRAP + [
                     "-Wl," + ",".join("--wrap=" + f for f in (
                         "fopen", "fclose", "fread", "fwrite", "fflush", "fseek", "fstat",
                         "ftruncate", "msync", "mmap", "munmap"))]}],
        "rule": "random histories on one container in which an allocation of half of the operations fails, compared to a model after every operation, or on one file or mapping in which a system call fails; non-trivial = at least two failures and three (files: two) successes",
        "note": _MODEL_NOTE + "At most one failure per operation. Failures in destructors, which cannot report them, are outside of the domain.",
        "technique": "fault-injecting model-based property testing (generated operation histories with generated failing allocations and system calls, shrinking, ASan/UBSan)",
    },
    "C10": {
        "bins": [{"name": "strings%d" % g, "src": "strings.cc", "defs": ["CISTA_FNV1A=1", "GROUP=%d" % g]} for g in (1, 2)],
        "rule": "random operation sequences on three strings of one of 14 kinds (owning, view and generic strings of three character widths, C strings and C string views, raw and offset), compared to std::basic_string after every step; non-trivial = at least two inline and two heap contents",
        "note": _MODEL_NOTE + "Non-owning strings that refer to the storage of another or the same string, and zero characters written through references, are outside the domain.",
    },
}
