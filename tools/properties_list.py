RM = ["rubymap/src/map/core.rs", "rubymap/src/map.rs"]
HB = ["hashbrown/src/raw/mod.rs"]

p("C01", "The ordered map behaves as an insertion-ordered association list",
  "After any history of insertions, lookups, updates and removals, the ordered map answers every query exactly as a list of key/value pairs kept in insertion order with unique keys would: a key maps to the last value stored for it, keeps the position of its first insertion and the key object first inserted, and removal closes the gap (or moves the last pair in, for the swapping removals). This holds whatever the hash function returns and however the number of pairs crosses the small-map threshold in either direction. Two maps are equal exactly when they hold the same keys with equal values, in whatever order.",
  ["histories", "inputs"], "every sequence of map operations, every key set, every hash function (constant, colliding, adversarial), every crossing between the small and the indexed representation",
  "The unit tests of the ordered map run a few hand-written sequences with one well-behaved hasher; the interaction of the two representations, deletion heuristics and collisions depends on the history.",
  RM,
  [("linear scan up to the small-map limit, hash index above it", "rubymap/src/map/core.rs"), ("index fix-up after shift/swap removal", "rubymap/src/map/core.rs: decrement_indices, swap_remove_finish")],
  [("entries", "pairs in insertion order with their hashes", "rubymap/src/map/core.rs IndexMapCore"), ("indices", "hash table of positions, empty while small", "rubymap/src/map/core.rs IndexMapCore")],
  ["return values and iteration order of the public map API"])

p("C02", "Bulk and reordering operations keep order, contents and lookups coherent",
  "Sorting, reversing, moving, swapping, inserting at a position, retaining, draining, splitting, appending, extending, truncating, cloning and clearing an ordered map leave exactly the pairs, in exactly the order, that the same operation on a plain list of pairs leaves. Afterwards every remaining key is found at its position and every removed key is absent, also when a draining or splicing iterator is only partly consumed.",
  ["histories", "inputs"], "every history mixing single-pair and bulk operations, all ranges and positions, all sizes around the internal thresholds",
  "Each bulk operation picks one of several index-repair strategies by comparing sizes; the tests reach each strategy with one or two shapes at most.",
  RM + ["rubymap/src/set.rs"],
  [("erase_indices chooses among three repair strategies", "rubymap/src/map/core.rs: erase_indices"), ("rebuild after reordering", "rubymap/src/map/core.rs: rebuild_hash_table")],
  observe=["iteration order", "lookup of every key after every step"])

p("C03", "An exception from a key's hash or eql? surfaces and leaves the map intact",
  "If computing a key's hash, or comparing two keys, fails during a single-key map or set operation, the operation returns that very failure to its caller - it is never swallowed or turned into another answer - and the container then holds exactly the pairs it held before, all of them still findable. This holds in the small and in the indexed representation, whichever call fails.",
  ["fault_sequences", "histories", "inputs"], "every operation, every history before it, every position in the sequence of hash and equality calls at which the failure is injected",
  "No test makes user-defined equality fail at the n-th comparison of an operation in each representation.",
  RM + HB + ["rubymap/src/set.rs", "rubymap/src/map/core/entry.rs"],
  [("every probe propagates the failure before the first write", "rubymap/src/map/core.rs: get_index_of, insert_full; hashbrown/src/raw/mod.rs: find, find_or_find_insert_slot")],
  observe=["the returned error", "contents after the failure"])

p("C04", "Ordered containers never lose, duplicate or leak a key or value",
  "Every key and value handed to an ordered map or set is dropped exactly once: when it is replaced, removed, or when its container or an owning iterator over it is dropped, and not before. This remains true when a user callback (hash, equality, comparison, clone, predicate) panics in the middle of an operation, after which the container can still be used and dropped safely.",
  ["fault_sequences", "histories"], "every history of operations and every callback invocation at which a panic is injected",
  "Panic injection at the n-th callback of each operation is not done by any test of the ordered containers.",
  RM + ["rubymap/src/map/iter.rs", "rubymap/src/set.rs"],
  [("length is set before elements are moved out; guards restore state on unwind", "rubymap/src/map/core.rs; hashbrown/src/scopeguard.rs")],
  observe=["live instance counts of instrumented keys and values"])

p("C05", "Equality is asked only when hashes agree, and fast paths equal the generic path",
  "A lookup, insertion or removal asks a stored key for equality only if its recorded hash equals the hash of the searched key. The variants that take a precomputed hash, a custom equality, or a symbol-only comparison give the same answer and leave the same map as the generic operation on the same key.",
  ["inputs", "histories"], "all maps, all keys, all hash functions, all orders of mixing the variants",
  "Tests check results, not which user-visible callbacks were made, and compare no variant with another.",
  RM, [("hash compared before equality in the linear scan", "rubymap/src/map/core.rs: linear_find"), ("prehashed and symbol entry points", "rubymap/src/map/core.rs: insert_full_prehashed, get_index_of_prehashed_with, insert_full_sym")],
  observe=["log of equality and hash callbacks", "results of paired operations"])

p("C06", "Deleting while positions are pinned keeps every other position stable",
  "Deleting pairs in place during iteration leaves every other pair at its position and findable there, and makes the deleted keys unfindable at once; pairs that remain can still be updated. Squeezing out the holes afterwards leaves the surviving pairs in their order, all findable, and the deleted keys can be inserted again.",
  ["histories"], "every interleaving of in-place deletions, lookups, insertions, updates and compactions",
  "The tests delete one or two pairs; which slots are reused and how the index is repaired depends on the interleaving.",
  RM + ["monoruby/src/value/rvalue/hash.rs"],
  [("tombstones and compaction", "rubymap/src/map/core.rs: tombstone_remove_full, tombstone_index, compact_tombstones")],
  observe=["positions, lookups and iteration after every step"])

p("C07", "An entry handle acts on its key as the plain operations would",
  "Looking a key up once through an entry handle and then reading, inserting, modifying, replacing, moving or removing through that handle has the same effect and the same result as the corresponding plain operation on that key, reports the right position, and leaves the map coherent.",
  ["inputs", "histories"], "every map, key, entry operation and chain of entry operations",
  "The handle caches a position and a table slot; the tests exercise handles on small fixed maps.",
  ["rubymap/src/map/core/entry.rs", "rubymap/src/map/core.rs"],
  [("occupied and vacant entries hold the raw slot", "rubymap/src/map/core/entry.rs")],
  observe=["return values, positions, contents"])

p("C08", "The ordered set behaves as a list of unique elements and obeys set algebra",
  "After any history of insertions, replacements, removals, moves, sorting and bulk operations, the ordered set answers exactly as a list of unique elements in that order would. Subset, superset, disjointness and equality of two sets agree with mathematical sets; appending or extending adds only the missing elements, at the end, in their order.",
  ["inputs", "histories"], "every pair of sets, every history of set operations, all hash functions",
  "The tests enumerate a few concrete pairs of small sets.",
  ["rubymap/src/set.rs", "rubymap/src/set/iter.rs"],
  [("set operations are chained iterators over both operands", "rubymap/src/set/iter.rs")],
  observe=["element sequences"])

p("C09", "Iterators and slice views show exactly the container's sequence",
  "Every iterator over an ordered map, set or their slice views yields each element exactly once, in order from the front and in reverse order from the back, with an exact remaining length at every step, and stays exhausted. Ranges, splits, searches and disjoint mutable access on views agree with the same operation on a plain list and reject out-of-bounds and overlapping requests.",
  ["inputs", "histories"], "every interleaving of front and back steps, all ranges and split points, all sorted contents for the searches",
  "The tests iterate in one direction over fixed maps; mixed-end iteration and boundary ranges are sampled at single points.",
  ["rubymap/src/map/iter.rs", "rubymap/src/map/slice.rs", "rubymap/src/set/iter.rs", "rubymap/src/set/slice.rs", "rubymap/src/util.rs", "rubymap/src/macros.rs"],
  [("iterator forwarding macros", "rubymap/src/macros.rs"), ("range simplification", "rubymap/src/util.rs")],
  observe=["yielded sequences, lengths, errors"])

p("C10", "Capacity promises hold and the published memory layout is the real one",
  "After room for n more pairs has been reserved, inserting n new pairs does not reallocate the pair storage; shrinking keeps contents and never goes below the length; a reservation that cannot be satisfied is refused and not silently shortened. Reading a map's pairs through the published field offsets yields exactly the pairs the safe interface yields.",
  ["inputs", "histories"], "all sizes, reservations and histories; all key and value types",
  "Tests check capacity at a few sizes; the offset description consumed by generated machine code is checked for one type.",
  RM + HB + ["rubymap/src/lib.rs"],
  [("entries_layout", "rubymap/src/map.rs"), ("reserve keeps index and pair storage in step", "rubymap/src/map/core.rs: reserve, shrink_to"), ("reserve_rehash", "hashbrown/src/raw/mod.rs")],
  observe=["capacity, addresses of pairs, pairs read through offsets"])

p("C11", "The unordered map behaves as a mathematical map for any hash function",
  "After any history of operations, the unordered map holds exactly the pairs a mathematical map would hold, and every query, iterator, entry handle and bulk operation reports exactly those, each once. This holds for hash functions that collide, are constant, or set the extreme bits, and for histories that fill the table with deletion marks until it is rehashed in place or grown.",
  ["histories", "inputs"], "every history, every hash function",
  "The upstream tests use a good hasher; in this fork the probing loops were rewritten for fallible equality.",
  ["hashbrown/src/map.rs", "hashbrown/src/raw/mod.rs", "hashbrown/src/control"],
  [("SIMD probing of control bytes", "hashbrown/src/raw/mod.rs"), ("rehash in place", "hashbrown/src/raw/mod.rs: rehash_in_place"), ("erase chooses EMPTY or DELETED", "hashbrown/src/raw/mod.rs: erase")],
  observe=["every public result"])

p("C12", "The unordered set obeys set algebra for any hash function",
  "After any history of operations the unordered set contains exactly the elements a mathematical set would; membership, replacement, insertion-or-get, removal, extraction, retention, draining, entry handles, iteration and the subset, superset and equality tests agree with mathematical sets, and every traversal yields each element exactly once.",
  ["histories", "inputs"], "every history, pair of sets and hash function",
  "The tests use a few concrete sets and a good hasher.",
  ["hashbrown/src/set.rs", "hashbrown/src/map.rs", "hashbrown/src/raw/mod.rs"],
  [("set on top of a map with unit values", "hashbrown/src/set.rs")],
  observe=["every public result"])

p("C13", "The raw hash table is a multiset indexed by hash",
  "The hash-keyed table stores exactly the elements inserted and not removed, duplicates included; searching a hash with a predicate finds an element if and only if one stored under that hash satisfies it; iterating over one hash yields at least every element stored under it; entries, removal and reinsertion at the freed place, retention, extraction and draining keep this true.",
  ["histories", "inputs"], "every history of insertions and removals, every assignment of hashes to elements",
  "The documentation examples use one table and one hasher; duplicates and extreme hashes are not generated.",
  ["hashbrown/src/table.rs", "hashbrown/src/raw/mod.rs"],
  [("probe sequence visits every group", "hashbrown/src/raw/mod.rs: ProbeSeq"), ("full-bucket tag match", "hashbrown/src/control")],
  observe=["every public result"])

p("C14", "Unordered containers drop each element exactly once, even when callbacks panic",
  "Every element given to an unordered map, set or table is dropped exactly once and never used afterwards, over any history including clones, drains, partial iteration, extraction and in-place rehashing. A panic in a hash, equality, clone or predicate callback loses no element other than by dropping it once and leaves the container usable; after a panic in an element's own drop, elements may leak but none is dropped twice or used after its drop.",
  ["fault_sequences", "histories"], "every history and every callback at which a panic is injected",
  "The tests inject panics at one or two chosen calls.",
  ["hashbrown/src/raw/mod.rs", "hashbrown/src/scopeguard.rs", "hashbrown/src/map.rs"],
  [("scope guards around resizing, rehashing, cloning and clearing", "hashbrown/src/raw/mod.rs")],
  observe=["live instance counts, address sanitizer"])

p("C15", "A failing equality in the unordered containers is reported, never swallowed",
  "If a user-defined equality fails while an unordered map, set or table searches, inserts, replaces or removes, the caller receives that failure, no element is added, changed or removed, and the container keeps answering correctly afterwards.",
  ["fault_sequences", "histories", "inputs"], "every operation, history and comparison at which the failure is injected",
  "No test makes an equality fail.",
  ["hashbrown/src/raw/mod.rs", "hashbrown/src/map.rs", "hashbrown/src/set.rs", "hashbrown/src/table.rs"],
  [("fallible equality threaded through the probe loops", "hashbrown/src/raw/mod.rs: find, find_or_find_insert_slot")],
  observe=["returned error, contents"])

p("C16", "Unordered containers honour capacity and never move elements needlessly",
  "A container created with, or reserved for, room for n elements accepts n elements without reallocating; shrinking and clearing keep exactly the contents they promise and a capacity of at least the length; elements stay at their address while only removals, lookups and in-place updates happen. Requests whose size overflows are refused.",
  ["inputs", "histories"], "all sizes, growth and shrink histories, element types of all sizes including zero-sized",
  "The tests check a handful of sizes.",
  ["hashbrown/src/raw/mod.rs", "hashbrown/src/map.rs", "hashbrown/src/table.rs"],
  [("capacity_to_buckets and the 7/8 load factor", "hashbrown/src/raw/mod.rs"), ("TableLayout computes the allocation", "hashbrown/src/raw/mod.rs")],
  observe=["capacity, allocation size, element addresses"])

p("C17", "Built-in equality and hashing of Ruby values are lawful",
  "For every built-in type the fallible equality is reflexive, symmetric, transitive and agrees with value equality; equal values (including a value and a borrowed form of it) always hash equally; sequences compare and hash element by element in order and stop at the first failing or differing element, reporting that failure.",
  ["inputs", "fault_sequences"], "all values of all implementing types, nested to any depth; all positions of a failing element",
  "The crate has no test of these laws.",
  ["ruby_traits/src/lib.rs"],
  [("blanket implementations over primitives, strings, options, vectors and references", "ruby_traits/src/lib.rs")],
  observe=["results and hasher input"])

p("C18", "A native method wrapper reports exactly the outcome of its body",
  "A native method registered through the wrapper attribute returns the body's value when it succeeds; when it fails it returns no value, records exactly that failure with one trace entry for the method, and nothing else; and a non-local return that targets the method's own frame becomes its return value with no failure recorded, while one aimed at another frame stays a failure.",
  ["inputs", "fault_sequences"], "every outcome of the body, every frame identity, nested calls to any depth",
  "The attribute is only exercised through the interpreter, which has no test enumerating outcomes.",
  ["monoruby_attr/src/lib.rs"],
  [("generated extern function matches on the result", "monoruby_attr/src/lib.rs: monoruby_builtin")],
  observe=["returned value, recorded error, trace calls"])

p("C19", "A typed object handle is a transparent view with a sound write barrier",
  "A typed handle made by the object attribute denotes the same object as the value it wraps in every conversion and reaches the same contents; every mutable access through a barriered handle is preceded by the write barrier of that object, reads trigger none, and unbarriered handles trigger none.",
  ["inputs", "histories"], "every sequence of reads, writes, copies, conversions and marks over a population of objects",
  "No test observes the barrier calls made by the generated code.",
  ["monoruby_attr/src/lib.rs"],
  [("generated Deref, DerefMut, From and GC impls", "monoruby_attr/src/lib.rs: monoruby_object")],
  observe=["barrier log, object identity"])

MS = "monoruby/src/"

p("C20", "Garbage collection never frees or overwrites a reachable object",
  "Across any history of allocations, pointer updates (with the required write barrier), root changes and minor or major collections, every object reachable from the roots keeps its identity and contents, and no memory of a reachable object is handed out again. This includes young objects reachable only from old ones, cyclic and arbitrarily deep structures, and collections requested at any moment.",
  ["histories", "schedules"], "every mutator history and every placement of minor and major collections in it",
  "The collector's behaviour depends on ages, remembered sets and page states built up by the whole history; the tests trigger collections in a few scripts.",
  [MS + "alloc.rs"],
  [("generational mark and sweep with a remembered set", MS + "alloc.rs: Allocator::gc, remember, gc_check_and_mark"), ("deferred marking past a recursion limit", MS + "alloc.rs")],
  [("mark bits, old bits", "liveness and generation of each cell", MS + "alloc.rs Page"), ("remembered set", "old objects that may point to young ones", MS + "alloc.rs Allocator")],
  ["contents of reachable objects, the order in which cells are freed"])

p("C21", "A full collection reclaims exactly the garbage and the statistics add up",
  "A full collection frees every unreachable object exactly once, before its cell is reused, and the freed cells are allocatable again. The reported numbers of live, freed, allocated and available cells, of pages and of collections agree with the history at every quiescent point, and disabling collection or denying full marking is respected.",
  ["histories"], "every mutator history and every placement of collections and settings changes",
  "Counters and page recycling are checked by no test over long histories.",
  [MS + "alloc.rs"],
  [("sweep, page salvage and free lists", MS + "alloc.rs: sweep, salvage_empty_pages"), ("trigger policy", MS + "alloc.rs: alloc, gc")],
  observe=["free callbacks, counters"])

p("C22", "A poll request is never lost and never invented, whatever threads interleave",
  "A request raised for garbage collection, preemption or a signal stays visible to the thread that must act until that thread clears that very kind of request; clearing one kind never clears another; and no request is observed that was not raised. This holds for every interleaving of raising and clearing from several threads and for requests raised by a signal handler.",
  ["schedules", "histories"], "all interleavings of the operations on the shared poll word by several threads, and all histories on one",
  "A lost update needs a particular interleaving.",
  [MS + "poll_flag.rs"],
  [("one atomic word with separate lanes, updated by read-modify-write", MS + "poll_flag.rs")],
  observe=["lane queries after each step"])

p("C23", "Sorting is a stable sort and keeps every element for any comparator",
  "Sorting with a consistent comparator yields the stable sorted order. With any comparator whatsoever - inconsistent, failing at any call - the array afterwards holds exactly the elements it held before, the failure is returned unchanged, and at each comparator call every element is reachable from the array, the scratch space or the call's arguments. A comparator's answer counts by its sign, whatever kind of integer it is, and an answer that is no number is refused with an error naming both operands.",
  ["inputs", "fault_sequences"], "all arrays, all comparators, every comparison at which the comparator fails",
  "The tests sort a few arrays with consistent comparators; run detection and merging differ with every input shape.",
  [MS + "executor/op/sort.rs"],
  [("TimSort-like merge sort whose holes are filled on unwinding", MS + "executor/op/sort.rs: merge, insert_head"), ("comparator result interpretation", MS + "executor/op/sort.rs: cmpint")],
  observe=["array contents, comparator call log"])

p("C24", "Ruby Hash behaves as an insertion-ordered map by eql?, or by identity",
  "A Hash answers every operation as a list of pairs in insertion order with unique keys would, keys being compared by eql? or, after the switch, by object identity. The answers do not depend on how many pairs it holds or which internal storage it uses, and default values, default procs, copies and replacement behave as documented for Ruby.",
  ["histories", "inputs"], "every history of Hash operations over every mixture of immediate, string and object keys",
  "Three storages (inline, small, indexed) and two key disciplines convert into each other at points the tests reach with a few scripts.",
  [MS + "value/rvalue/hash.rs"],
  [("inline pairs promoted to a boxed map", MS + "value/rvalue/hash.rs"), ("identity map", MS + "value/rvalue/hash.rs")],
  observe=["results of the Hash operations"])

p("C25", "Mutating a Hash during iteration is refused or harmless, never corrupting",
  "While a Hash is being iterated, adding a key raises, updating and deleting are allowed, every pair present throughout is visited exactly once, deleted pairs are not visited later, and nested iterations end independently. After the last iteration ends - normally or not - the Hash accepts new keys again and holds exactly the surviving pairs in order.",
  ["histories"], "every interleaving of nested iterations with updates, deletions, shifts, clears and failed insertions",
  "Deletion marks, saturating depth counters and deferred compaction interact over histories the tests do not enumerate.",
  [MS + "value/rvalue/hash.rs", "rubymap/src/map/core.rs"],
  [("iteration guard depth", MS + "value/rvalue/hash.rs"), ("tombstones compacted at the next mutation outside iteration", MS + "value/rvalue/hash.rs")],
  observe=["visited pairs, raised errors, contents"])

p("C26", "String operations respect the declared encoding and never trust a stale cache",
  "The length, the character boundaries, the validity and the ASCII-only status a String reports always are those of its current bytes in its declared encoding, after any history of edits, concatenations, substring extractions and encoding changes. Character-wise operations agree with splitting the bytes into characters of that encoding, a broken byte counting as one character.",
  ["inputs", "histories"], "all byte strings in all supported encodings, all histories of edits",
  "The validity of a string is cached and combined incrementally by each operation; a wrong combination shows only for particular byte mixtures.",
  [MS + "value/rvalue/string.rs"],
  [("cached code range combined by each edit", MS + "value/rvalue/string.rs: CodeRange"), ("character width tables per encoding", MS + "value/rvalue/string.rs")],
  observe=["results of string queries"])

p("C27", "Writing data with IO delivers each byte once, in order, under any short writes",
  "Whatever sizes the operating system accepts, however often it interrupts, would block or delivers a signal, the bytes written to an IO reach the descriptor exactly once and in order, or are still buffered; a hard error is reported and loses nothing that was not handed to the descriptor. Synchronous mode leaves nothing buffered, and no write call is made while a signal waits to be handled.",
  ["fault_sequences", "histories"], "every sequence of writes and flushes and every sequence of outcomes of the underlying write calls",
  "Short writes, EINTR, EAGAIN and errors cannot be provoked at chosen points through a real descriptor.",
  [MS + "value/rvalue/io/buf.rs"],
  [("write buffer with progress bookkeeping", MS + "value/rvalue/io/buf.rs: WriteBuf")],
  observe=["bytes at the descriptor, buffered length, results"])

p("C28", "Reading through the IO buffer equals reading the underlying bytes",
  "Any history of reads of any size, line reads, peeks and seeks through the buffered reader - failing and interrupted calls included - returns the bytes, and reports the positions, that the same history on an unbuffered file would; after a seek the descriptor itself stands at the position reported.",
  ["histories", "fault_sequences"], "all histories of reader operations, all chunkings of the underlying reads",
  "The buffer boundary falls at arbitrary places relative to the requests.",
  [MS + "value/rvalue/io/buf.rs"],
  [("logical position tracking over a read buffer", MS + "value/rvalue/io/buf.rs: IoReader")],
  observe=["bytes and positions"])

p("C29", "Glob matching agrees with its definition for every pattern and path",
  "Whether a path matches a shell pattern is exactly what the documented rules for wildcards, sets, ranges, negation, escapes, recursive directories, leading periods, case folding and brace alternatives say, for every pattern, path and flag combination; matching always terminates with an answer.",
  ["inputs"], "all patterns, paths and flag combinations",
  "The pattern language has many interacting features; tests sample a few dozen pairs.",
  [MS + "builtins/fnmatch.rs"],
  [("segment matcher with backtracking", MS + "builtins/fnmatch.rs")],
  observe=["the boolean answer"])

p("C30", "Register allocation of arithmetic runs computes what the slots would hold",
  "Executing the register actions chosen for a run of integer operations leaves in every local variable and temporary the value that executing the operations one by one in memory would leave, and reads no register that does not hold the value meant.",
  ["programs", "inputs"], "all runs of operations over any number of slots and all initial values",
  "Eviction, reuse and write-back decisions depend on the whole run.",
  [MS + "codegen/jitgen/gp_alloc.rs"],
  [("linear register file with spill and write-back", MS + "codegen/jitgen/gp_alloc.rs")],
  observe=["slot contents after interpreting the actions"])

p("C31", "Line and column information points at the right place of the source",
  "For every source text and every position in it, the reported line number, column and line text are those obtained by counting the line terminators before the position; a position past the end belongs to the last line.",
  ["inputs"], "all source texts, including empty ones, missing final newlines and multi-byte characters; all positions and spans",
  "Tests check positions in a few scripts.",
  [MS + "ast/source_info.rs"],
  [("table of line starts searched by position", MS + "ast/source_info.rs")],
  observe=["reported line, column and text"])

p("C32", "Instance-variable storage behaves as a growable array of values",
  "The compact vector that stores instance variables holds exactly the values written to it at the positions written, unwritten positions read as unset, growth and cloning preserve contents, and its three published field offsets locate pointer, capacity and length.",
  ["histories"], "every history of pushes, resizes, reservations, writes and clones",
  "Growth boundaries are crossed by a few tests only.",
  [MS + "value/rvalue/ivar_table.rs"],
  [("raw vector with zero-filled growth", MS + "value/rvalue/ivar_table.rs: MonoVec")],
  observe=["contents, offsets"])

p("C33", "Everything a Hash refers to is reported to the garbage collector",
  "Marking a Hash marks every key and value it holds, its default value and its default proc, and nothing it no longer holds; the question whether it refers to young objects is answered yes whenever it does. Every operation that stores a reference in a Hash reports that reference, or the Hash as a whole, to the write barrier.",
  ["histories"], "every history of Hash operations over every storage, with objects of both generations",
  "A missed reference is freed while in use, which shows only when a collection falls at the wrong moment.",
  [MS + "value/rvalue/hash.rs"],
  [("mark and young-child walk per storage", MS + "value/rvalue/hash.rs"), ("write barriers in each mutator", MS + "value/rvalue/hash.rs")],
  observe=["marked objects, recorded barriers"])

p("C34", "Generated code can read a Hash through the published field offsets",
  "The published offsets, flag bits and entry layout describe the memory of every Hash: reading length, pairs, deletion marks and storage kind through them gives exactly what the Hash operations report, for every storage and after every history.",
  ["histories"], "every history of Hash operations over every storage",
  "Generated machine code reads these fields directly; a drift between the layout and the constants is silent memory corruption.",
  [MS + "value/rvalue/hash.rs", "rubymap/src/map/core.rs"],
  [("HASH_ offsets and EntriesLayout", MS + "value/rvalue/hash.rs")],
  observe=["fields read at the offsets"])

p("C35", "Strings that share a buffer behave as if each had its own",
  "Substrings, duplicates and frozen snapshots may share bytes with the String they came from, but changing any of them, in any order and across garbage collections, never changes another, and each keeps its own bytes and encoding. Generated code that reads and appends through the published offsets sees and leaves the same String as the operations do.",
  ["histories"], "all histories of sharing and mutating operations, with collections anywhere",
  "Sharing is decided by lengths and by what happened before; a missed copy shows up in another object much later.",
  [MS + "value/rvalue/string.rs"],
  [("shared and rooted buffers, copy on write", MS + "value/rvalue/string.rs"), ("published string layout", MS + "value/rvalue/string.rs")],
  observe=["bytes, encodings, fields at the offsets"])

p("C36", "inspect and dump give literals that read back as the same String",
  "What inspect gives for a valid String, and what dump gives for any String, is a Ruby literal that denotes exactly the bytes it was made from, in every encoding. The name of every encoding leads back to that encoding.",
  ["inputs"], "all byte strings in all encodings",
  "Escapes depend on neighbouring characters and on the encoding.",
  [MS + "value/rvalue/string.rs"],
  [("inspect, dump, Encoding::try_from_str", MS + "value/rvalue/string.rs")],
  observe=["literals, encoding names"])

p("C37", "pack and unpack convert exactly as the template directives say",
  "For every template, pack gives the bytes the directives prescribe for the arguments, unpack gives the values the bytes stand for, and unpack1 gives the first of these; what the directives cannot represent or the bytes cannot mean is refused with an error. Encoded text of any content reads back unchanged.",
  ["inputs"], "all templates, arguments and byte strings",
  "Directives, modifiers, counts and positions combine freely.",
  [MS + "value/rvalue/string/pack.rs"],
  [("pack and unpack", MS + "value/rvalue/string/pack.rs")],
  observe=["bytes, values, errors"])

p("C38", "Formatting by a format string gives the text the directives prescribe",
  "For every format string and arguments, format gives exactly the text that flags, width, precision and conversion prescribe: floats correctly rounded to the digits asked for, integers of any size in any base with the two's complement form of negative ones, text by characters. A format string or argument that does not fit is refused with an error, never with a crash.",
  ["inputs"], "all format strings and arguments",
  "Flags, width, precision, argument kinds and magnitudes combine freely.",
  [MS + "executor/format.rs", MS + "value/coerce.rs"],
  [("format", MS + "executor/format.rs")],
  observe=["formatted text, errors"])

p("C39", "Text is read as the number it denotes, exactly and to the right extent",
  "String#to_i with any base, hex, oct and to_f read the longest number at the start of any text, with its sign, prefix and underscores, and give its exact value or the nearest float. Integer() and Float() give the same value when the whole text is a number and refuse every other text with an ArgumentError.",
  ["inputs"], "all texts and bases",
  "Where a number ends depends on every character, and rounding on every digit.",
  [MS + "builtins/string.rs", MS + "builtins/kernel.rs", MS + "builtins.rs"],
  [("to_i", MS + "builtins/string.rs"), ("Integer", MS + "builtins/kernel.rs")],
  observe=["numbers, errors"])

p("C40", "tr, delete, squeeze and count treat exactly the characters their sets list",
  "For every string and sets with ranges, escapes and negation, tr and tr_s replace each listed character by its counterpart, and delete, squeeze and count act on the characters in all sets and on no others, whole characters at a time in every encoding. The methods with an exclamation mark make the same change in place, or give nil and leave the string alone.",
  ["inputs"], "all strings, sets and encodings",
  "Fast paths for ASCII, tables, byte mappings and character walks have to agree on every set.",
  [MS + "builtins/string.rs"],
  [("tr and delete", MS + "builtins/string.rs")],
  observe=["resulting strings, counts"])

p("C41", "Stripping, chomping, padding and affixes work on whole characters",
  "For every string in every encoding, strip, lstrip and rstrip, chomp and chop, center, ljust and rjust, and start_with?, end_with?, delete_prefix and delete_suffix give the string with exactly those whole characters removed or added, in the encoding the rules name. The methods with an exclamation mark make the same change in place, or give nil and leave the string alone.",
  ["inputs"], "all strings and encodings",
  "Byte-wise shortcuts that are right for UTF-8 cut characters of other encodings in half.",
  [MS + "builtins/string.rs", MS + "value/rvalue/string.rs"],
  [("strip, chomp and padding", MS + "builtins/string.rs")],
  observe=["resulting strings, their encodings, return values"])

p("C42", "Case mapping, comparison, succ, scrub, dump and sum follow their definitions",
  "For every string and option, upcase, downcase, swapcase, capitalize, casecmp and casecmp?, succ, reverse, ord, sum, scrub, dump and undump give what the character-wise definition gives, keep the encoding, and undump of dump is the string itself.",
  ["inputs"], "all strings, options and encodings",
  "ASCII shortcuts, carries of succ, replacement of invalid runs and escapes each have their own paths per encoding.",
  [MS + "builtins/string.rs", MS + "value/rvalue/string.rs"],
  [("case mapping, succ, scrub, dump", MS + "builtins/string.rs")],
  observe=["resulting strings, numbers and encodings"])

p("C43", "Searching, splitting and lines find exactly the occurrences between characters",
  "For every string and string to look for, index, rindex, byteindex, byterindex, include?, partition, rpartition, split, lines and each_line find the first or last occurrence that starts and ends between characters. The pieces put together again with what separated them are the string.",
  ["inputs"], "all strings, separators, limits and positions",
  "Searches work on bytes for speed; in EUC-JP and Shift_JIS the bytes of one text also occur in the middle of others.",
  [MS + "builtins/string.rs", MS + "value/rvalue/string.rs"],
  [("index, split and lines", MS + "builtins/string.rs")],
  observe=["positions, pieces and their encodings"])

p("C44", "Reading and replacing parts of a string by index or range is exact",
  "For every string, index, length and range, [], slice, byteslice and getbyte give the characters or bytes the rules name or nil, and []=, slice!, insert, setbyte and bytesplice change exactly that part and nothing else. A refused call leaves the string as it was.",
  ["inputs", "api_sequences"], "all strings, indices, lengths and ranges",
  "Negative, open, reversed and out-of-range positions are resolved separately for characters and bytes, with shortcuts for ASCII.",
  [MS + "builtins/string.rs", MS + "value/rvalue/string.rs"],
  [("[], []= and bytesplice", MS + "builtins/string.rs")],
  observe=["parts, resulting strings, refusals"])

p("C45", "Integer arithmetic is exact across the fixnum and bignum boundary",
  "Every operator, shift, power, modular power, bit access, rounding and conversion of Integer gives the mathematically exact result, whatever mixture of small and large representations its operands and result need. A result is kept in a word exactly when it fits, and what cannot be computed is refused rather than answered wrongly.",
  ["inputs"], "all operand values",
  "Overflow paths are chosen by value, and each operator has its own pair of representations to get right.",
  [MS + "executor/op/binary_ops.rs", MS + "executor/op.rs", MS + "builtins/numeric/integer.rs"],
  [("operators on both representations", MS + "executor/op/binary_ops.rs"), ("Integer methods", MS + "builtins/numeric/integer.rs")],
  observe=["results, their representation, refusals"])

p("C46", "Floats compare exactly with integers, and round and print correctly",
  "Comparing a Float with an Integer of any size gives the order of the exact numbers. Mixed arithmetic, divmod, floor, ceil, round and truncate with digits and half modes, to_i, to_r, rationalize and next_float give the nearest or exact result the definition names, and to_s gives the shortest digits that read back as the same Float.",
  ["inputs"], "all floats, integers, digits and half modes",
  "Conversions lose bits only beyond 53 of them, and scaling by powers of ten errs only for some values.",
  [MS + "builtins/numeric/float.rs", MS + "executor/op.rs", MS + "value/numeric.rs", MS + "value.rs"],
  [("Float methods", MS + "builtins/numeric/float.rs"), ("comparison of big integers and floats", MS + "executor/op.rs"), ("ruby_float_to_s", MS + "value.rs")],
  observe=["results, order, text"])

p("C47", "Rational arithmetic, comparison and rounding are exact and in lowest terms",
  "Every operator on rationals and integers gives the exact fraction in lowest terms with a positive denominator, and comparison, eql?, hash and != agree with it. Rounding to any number of digits in every half mode looks at the whole fraction.",
  ["inputs"], "all numerators, denominators, digits and half modes",
  "Signs, common factors, negative digits and exact halves each need values of their own.",
  [MS + "builtins/numeric/rational.rs", MS + "value/rvalue/rational.rs"],
  [("Rational methods", MS + "builtins/numeric/rational.rs"), ("fractions", MS + "value/rvalue/rational.rs")],
  observe=["results, order, hash values, text"])

p("C48", "Every number, symbol and constant survives packing, and eql? fits hash",
  "What is put into a value word or boxed beside it is read back as the same kind with the same bits, and two things share a word exactly when they are the same. Numbers that are eql? have equal hash values, by method and as keys.",
  ["inputs"], "all integers, floats, symbols and constants",
  "Tags leave room for some floats and integers only; the limits are single bit patterns.",
  [MS + "value.rs", MS + "value/numeric.rs", MS + "value/rvalue/complex.rs"],
  [("packing and unpacking", MS + "value.rs"), ("eql? and digests of values", MS + "value.rs")],
  observe=["values read back, words, eql?, digests"])

p("C49", "Arrays read and change by position as lists do",
  "Reading, assigning, inserting, deleting, filling, slicing and rotating an Array by index, start and length or range gives the elements and leaves the list the definition names, for indices of every sign and size. What lies out of range or would not fit in memory is refused and changes nothing, and a frozen array never changes.",
  ["inputs", "states"], "all arrays, indices, lengths, ranges and histories of changes",
  "Negative, reversed, endless and huge positions meet each length in their own way, and the argument may be the array itself.",
  [MS + "builtins/array.rs", MS + "value/rvalue/array.rs"],
  [("Array methods", MS + "builtins/array.rs"), ("positions and ranges", MS + "value/rvalue/array.rs")],
  observe=["values given, elements left, refusals"])

p("C50", "Combining, ordering and searching arrays follows their elements' own answers",
  "Set operations, uniq, flatten, product, zip, transpose, join, sorting, minimum and maximum, sums, filters and searches of an Array give what a list gives whose elements are asked with eql?, == or <=>, whatever kinds of number or object they are. The order is that of the sign of any number <=> or a block answers with, equal arrays have equal hashes, and a block that raises leaves the elements not yet decided in place.",
  ["inputs"], "all arrays of mixed elements and all answers of blocks",
  "Elements of different kinds can be equal in one sense only, and lists beyond some length take other paths.",
  [MS + "builtins/array.rs", MS + "value/rvalue/array.rs", MS + "executor/op.rs", MS + "executor/op/sort.rs", MS + "value.rs"],
  [("Array methods", MS + "builtins/array.rs"), ("ordering of values", MS + "executor/op.rs"), ("eql? and hash of arrays", MS + "value.rs")],
  observe=["values given, elements left, calls of the block"])

p("C51", "Code that changes an array while it is worked on does no harm",
  "When a block or an element's ==, eql?, hash, <=> or to_s changes the receiver or the argument of an Array method, the method ends without a crash and shows and gives only elements that were there at some time. Methods that go from the first element to the last look at the array as it then is.",
  ["inputs", "states"], "all methods, moments and changes",
  "Only a change at the right call leaves a method with memory that has moved or a length that is no longer true.",
  [MS + "builtins/array.rs", MS + "value.rs", MS + "executor/op/sort.rs"],
  [("Array methods that call back", MS + "builtins/array.rs"), ("eql? and hash of arrays", MS + "value.rs")],
  observe=["crashes, invalid memory accesses, values shown and given"])

p("C52", "Array methods keep alive what they hold, and note what old arrays gain",
  "A garbage collection during any block or element method called by an Array method changes nothing about what the method gives and leaves. An array that has grown old is remembered by the collector before anything runs that could miss a new value put into it.",
  ["inputs", "states"], "all methods and moments of collection",
  "Only a collection at the moment when a value is in no rooted place shows that it is not.",
  [MS + "builtins/array.rs", MS + "value/rvalue/array.rs"],
  [("Array methods that call back", MS + "builtins/array.rs"), ("write barriers of Array", MS + "value/rvalue/array.rs")],
  observe=["results with and without collections, invalid memory accesses, remembered arrays"])

p("C53", "Seeded random draws give the reference stream and stay within bounds",
  "After a given seed every draw by rand, random_number, bytes, shuffle and sample, by the default generator or by an instance, gives what the reference Mersenne Twister prescribes and moves the stream on by exactly that. Results lie within the bounds asked for whatever their width, instances are equal when the same is to come from them, and an object standing in as generator can neither force a bad index nor free what is being chosen from.",
  ["inputs", "states"], "all seeds, bounds, histories of draws and behaviours of a stand-in generator",
  "Streams are 2^19937 long, and wide ranges, retries and length changes during a draw need particular values.",
  [MS + "globals/prng.rs", MS + "builtins/random.rs", MS + "builtins/array.rs"],
  [("generator and limited draws", MS + "globals/prng.rs"), ("Random", MS + "builtins/random.rs"), ("Array#shuffle and #sample", MS + "builtins/array.rs"), ("Kernel#rand", MS + "builtins/kernel.rs")], observe=["numbers drawn", "order of elements", "errors"])

p("C54", "JSON text and the values it stands for convert exactly both ways",
  "Every text of the JSON grammar is read as the value it denotes, with integers of any size, every escape and repeated names resolved to the last. What is written is JSON that reads back as the same value. Text that breaks the grammar, goes on after its value or nests too deeply is refused with an error rather than misread or crashing.",
  ["inputs"], "all texts and all values JSON can express",
  "The grammar admits unboundedly many texts for each value; surrogate pairs, number forms and depth need particular ones.",
  [MS + "builtins/json.rs"],
  [("parser and generator", MS + "builtins/json.rs")], observe=["values read", "text written", "errors"])

p("C55", "Hash methods answer as an ordered list of pairs does",
  "Every Hash method of the core (lookup, storing, removal, merging, selection, inversion, comparison, subset tests, defaults, identity comparison) gives what the same steps on a list of pairs in insertion order give, and leaves the receiver and its arguments as those steps do. String keys are copied and frozen, frozen hashes refuse every change, and equal hashes have equal digests whatever their order.",
  ["inputs", "histories"], "all hashes, keys of every kind, histories of method calls",
  "The methods share one table with two representations and two ways of comparing; the tests call each method on one or two literal hashes.",
  [MS + "builtins/hash.rs", MS + "value/rvalue/hash.rs"],
  [("methods", MS + "builtins/hash.rs"), ("table", MS + "value/rvalue/hash.rs")], observe=["results", "contents afterwards", "errors", "digests"])

p("C56", "Hash methods survive program code that changes hashes or collects garbage",
  "While a Hash method runs a block, a default proc, a comparison or a digest supplied by the program, that code may change the hashes involved or start a collection. The method then neither reads freed memory nor loses a pair it must keep, raises when a key is added during a walk, and what it hands to blocks and returns are values that were really there.",
  ["inputs", "histories", "memory"], "all hashes, all changes and collections at every callback",
  "Which element is freed depends on the callback at which a change or collection strikes.",
  [MS + "builtins/hash.rs", MS + "value/rvalue/hash.rs"],
  [("walks with callbacks", MS + "builtins/hash.rs")], observe=["results", "memory safety", "errors"])

p("C57", "File path methods resolve names purely by their text",
  "join, expand_path, absolute_path, basename, extname and split of File compute what the rules of path text give: separators collapse, . and .. resolve against the base without passing the root, ~ stands for a home directory, a suffix is cut only off a name longer than itself. They never split a character and joining the parts of a split names the same file.",
  ["inputs"], "all byte strings in all encodings as paths, bases and suffixes",
  "Dots, slashes and suffixes interact at every boundary of the text; tests name a few typical paths.",
  [MS + "builtins/file.rs"],
  [("path arithmetic", MS + "builtins/file.rs")], observe=["resulting path", "its encoding", "errors"])

p("C58", "Set methods answer as lists without repetition do",
  "Every Set method (adding, removing, union, intersection, difference, comparison, selection, flattening, grouping, digests) gives what the same steps on a list without repeated elements give, in the order of first insertion and under the comparison the set uses, even when a collection strikes while elements are compared. Frozen sets refuse every change and a set that contains itself is refused by flattening.",
  ["inputs", "histories"], "all sets, nested and compared by identity or by value, and all lists and sets as arguments",
  "Order, comparison mode and aliasing of receiver and argument combine; tests use small sets of integers.",
  [MS + "builtins/set.rs", MS + "value/rvalue/hash.rs"],
  [("methods", MS + "builtins/set.rs")], observe=["results", "contents and order afterwards", "errors", "memory safety"])

p("C59", "IO::Buffer views show exactly their span and never reach outside",
  "Reading or writing through an IO::Buffer, a slice of it or a view of a string touches exactly the bytes of its span, and is refused once the source no longer covers them. Values stored in any type and byte order read back unchanged, and read-only, locked and freed buffers refuse what they must. None of this breaks when arguments or blocks run code that frees, resizes or collects.",
  ["inputs", "histories"], "all histories of calls on buffers, nested slices and string views",
  "Offsets, sizes, freed sources and code run by arguments combine; a mistake reads or overwrites memory of something else.",
  [MS + "builtins/io_buffer.rs", MS + "value/rvalue/io_buffer.rs"],
  [("methods", MS + "builtins/io_buffer.rs"), ("storage", MS + "value/rvalue/io_buffer.rs")], observe=["results", "bytes of every buffer and string afterwards", "errors", "memory safety"])

p("C60", "Marshal.load gives back the graph that Marshal.dump wrote",
  "Loading what was dumped gives a value of the same shape: equal contents, classes, modules, encodings and instance variables, and the same sharing and cycles between objects, also when user methods, the load proc or a collection run in between. Data cut short or altered in any byte is refused or loads to well-formed values; it never crashes the process or gives a value a class that its contents do not fit. Numbers are written byte for byte as CRuby writes them.",
  ["inputs", "states"], "all graphs of dumpable objects and all byte strings",
  "Writer and reader number the objects they meet independently, so one kind of object that only one side counts shifts every later link; tests dump a few objects at a time.",
  [MS + "builtins/marshal.rs"],
  [("writer and reader", MS + "builtins/marshal.rs")], observe=["the loaded graph", "errors", "panics"])

# ---- properties that this technique cannot decide here
NA = "needs the interpreter running"

p("N01", "Compiled code and interpreted code give the same observable result",
  "For every Ruby program, running it with the just-in-time compiler on or off, at any compilation threshold, gives the same output, results and raised exceptions.",
  ["programs", "configurations"], "all programs and all compilation configurations",
  "Deoptimisation and specialisation depend on the types seen so far.",
  [MS + "codegen/jitgen.rs", MS + "codegen/compiler.rs", MS + "codegen/arch.rs"],
  [("guards and side exits", MS + "codegen/jitgen")], observe=["program output"])

p("N02", "Redefining a method or constant takes effect at the next use everywhere",
  "After any definition, redefinition, removal, inclusion or refinement, every later call or constant reference - cached, inlined or compiled - sees the new definition.",
  ["histories", "programs"], "all orders of definitions and calls",
  "Inline caches are invalidated by versions whose combinations the tests sample.",
  [MS + "globals/store.rs", MS + "codegen/jitgen.rs"],
  [("class version and constant version checks", MS + "codegen/jitgen")], observe=["which definition runs"])

p("N03", "Exceptions unwind through every frame kind and run each ensure once",
  "However an exception, throw, break, next, return or fiber switch leaves a frame, every ensure clause on the way runs exactly once, innermost first, and the receiver of control sees the right value.",
  ["programs", "fault_sequences"], "all nestings of frames, blocks, ensure clauses and exits",
  "Unwinding differs between native, interpreted and compiled frames.",
  [MS + "executor.rs", MS + "codegen/runtime.rs"],
  [("unwinder and exception tables", MS + "executor.rs")], observe=["order of side effects"])

p("N04", "Generated code for numbers agrees with the methods it stands for",
  "Integer and Float operations that are compiled inline, with their overflow checks, comparisons and packing of floats, give for all operands what the interpreted methods give.",
  ["inputs"], "all operand values",
  "Overflow paths are chosen by value.",
  [MS + "codegen/jitgen.rs", MS + "builtins/numeric/integer.rs"],
  [("inlined operations", MS + "builtins/numeric/integer.rs")], observe=["results"])

p("N05", "Threads, fibers and signals lose no wake-up and hold one runner at a time",
  "Under every schedule exactly one Ruby thread runs at a time, a runnable thread eventually runs, blocking operations wake exactly the waiter they should, and a pending signal or kill is delivered once.",
  ["schedules"], "all schedules",
  "Needs particular interleavings.",
  [MS + "scheduler.rs", MS + "builtins/thread.rs"],
  [("green-thread scheduler and poll points", MS + "scheduler.rs")], observe=["order of thread effects"])

p("N06", "Every program is parsed to the syntax tree Ruby prescribes or rejected",
  "For every source text the program executed is the one Ruby's grammar prescribes, or a SyntaxError is raised; the parser never crashes.",
  ["inputs"], "all source texts",
  "Unbounded input space.",
  [MS + "parser", MS + "bytecodegen.rs"],
  [("prism parser and bytecode generation", MS + "bytecodegen.rs")], observe=["program behaviour"])
