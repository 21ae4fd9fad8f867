H = "bounded random search: "
c("C01", MODEL, "exploration", H + "histories of up to 300 single-pair operations over up to 1200 keys and 12 hash functions, compared with a list of pairs after every step, under the address sanitizer")
c("C02", MODEL, "exploration", H + "histories of up to 300 bulk and single operations on up to three maps, compared with lists, under the address sanitizer")
c("C03", FAULT, "fault_enumeration", H + "one of the first 12 hash or equality callbacks of each chosen operation raises; result and contents compared with the model")
c("C04", FAULT, "fault_enumeration", H + "one of the first 20 callbacks of each chosen operation panics; ledger of live instances and contents compared, under the address sanitizer")
c("C05", DIFF, "exploration", H + "two maps driven in step through generic and fast operations, equality questions logged")
c("C06", MODEL, "exploration", H + "up to 12 windows of in-place deletion per history, positions and lookups compared at every step")
c("C07", MODEL, "exploration", H + "histories dominated by entry handles compared with a list of pairs")
c("C08", MODEL, "exploration", H + "histories on up to three ordered sets compared with lists")
c("C09", MODEL, "exploration", H + "scripts driving every iterator from both ends and operations on random sub-views, compared with plain lists")
c("C10", MODEL, "exploration", H + "capacity histories with address checks; eight instantiations read through the published layout")
c("C11", MODEL, "exploration", H + "histories of up to 300 operations on up to three unordered maps over up to 1200 keys and 12 hash functions, compared with a list of pairs, under the address sanitizer")
c("C12", MODEL, "exploration", H + "histories on up to three unordered sets compared with lists, under the address sanitizer")
c("C13", MODEL, "exploration", H + "histories on raw hash tables holding duplicates, compared with a multiset, under the address sanitizer")
c("C14", FAULT, "fault_enumeration", H + "one of the first 20 callbacks of each chosen operation panics; ledger of live instances and contents compared, under the address sanitizer")
c("C15", FAULT, "fault_enumeration", H + "one of the first 12 equality callbacks of each chosen operation raises; result and contents compared with the model")
c("C16", MODEL, "exploration", H + "capacity requests including absurd ones for twelve element types, with a checking allocator")
c("C17", MODEL, "exploration", H + "pairs of values of every implementing type and nested sequences of recording elements, with a hasher that records its input")
c("C18", MODEL, "exploration", H + "trees of up to 9 nested native calls with every kind of failure, run through the generated wrappers over recording stand-ins")
c("C19", MODEL, "exploration", H + "histories through four generated handle types over recording objects")

c("C20", MODEL, "exploration", H + "mutator histories over graphs of up to some thousand objects with minor and major collections anywhere, deep chains and many pages; the collector's source is mounted unchanged over stand-in objects that check their contents")
c("C21", MODEL, "exploration", H + "the same histories with exact bookkeeping of frees, cells, pages and counters, and of buffer allocations that request collections")
c("C22", MODEL, "exploration", H + "histories on one thread, operations injected between any two instructions of another by single-stepping, and real threads; answers compared with the possible orders")
c("C23", FAULT, "fault_enumeration", H + "arrays of up to some thousand elements with consistent, inconsistent and failing comparators; stable order, permutation and reachability at every comparison, under the address sanitizer")
c("C24", MODEL, "exploration", H + "histories on several Hashes of up to 40 keys of three kinds, with failing callbacks, and the same pairs reached two ways, compared with a list of pairs under the address sanitizer")
c("C25", MODEL, "exploration", H + "nested traversals interleaved with insertions, updates, deletions, shifts, clears and replacements, compared with a list of pairs")
c("C26", MODEL, "exploration", H + "histories of seventeen operations on up to three strings in sixteen encodings, every answer after every operation compared with decoding the bytes anew, under the address sanitizer")
c("C27", FAULT, "fault_enumeration", H + "histories of writes and flushes over a scripted descriptor with short writes, interrupts, signals, full descriptors and errors; every byte accounted for after every call, under the address sanitizer")
c("C28", MODEL, "exploration", H + "histories of reads, peeks, line reads and seeks over a scripted file, compared with the plain bytes, under the address sanitizer")
c("C29", DIFF, "exploration", H + "patterns with paths made to fit them and then changed, compared with a table-driven matcher written from the rules")
c("C30", MODEL, "exploration", H + "runs of up to 40 operations and step-by-step use of the register file, executed on a machine whose values are all different")
c("C31", MODEL, "exploration", H + "generated texts with every byte position asked, and spans whose heading, line text and mark are compared with counting")
c("C32", MODEL, "exploration", H + "histories on up to four vectors compared with lists, also read through the published offsets, under the address sanitizer")
c("C33", MODEL, "exploration", H + "after every operation the references reported for marking, the young-child question and the recorded write barriers are compared with the values the Hash really holds")
c("C34", MODEL, "exploration", H + "after every operation the Hash is read through the published offsets only, as generated code does, and compared with the model")
c("C35", MODEL, "exploration", H + "histories of substrings, duplicates, snapshots, mutations and appends by stand-in generated code on up to eight strings with collections between and inside operations, compared with byte lists under the address sanitizer")
c("C36", MODEL, "exploration", H + "generated strings in sixteen encodings whose literals are read back by a reader written from the language rules; every encoding name")
c("C37", DIFF, "exploration", H + "templates of several directives with arguments and bytes that fit, nearly fit or do not, compared with a second implementation; text encodings by reading back, under the address sanitizer")

c("C38", DIFF, "exploration", H + "directives with every flag, width and precision over integers, floats and texts at the edges, compared with the C library and digit-by-digit references")
c("C39", DIFF, "exploration", H + "texts of numbers in every base with signs, prefixes, underscores, blanks and things that do not belong, compared with a scanner written from the rules and the C library's rounding")
c("C40", MODEL, "exploration", H + "strings in six encodings and sets with ranges, escapes and negation, compared with the sets spelled out character by character")
c("C41", MODEL, "exploration", H + "valid strings in the encodings with their blanks, line ends, affixes and pads, compared with the same operations on lists of characters")
c("C42", MODEL, "exploration", H + "strings of letters with special case mappings, digits and letters that carry, broken bytes and escapes, compared with character-wise references")
c("C43", MODEL, "exploration", H + "strings over few characters whose bytes overlap, with separators, limits and positions, compared with searching lists of characters")
c("C44", MODEL, "exploration", H + "strings with indices, lengths and ranges around both ends, open and reversed, compared with the same operations on lists of characters and bytes")
c("C45", MODEL, "exploration", H + "integers around the limits of every representation under all operators and methods, compared with sign-and-magnitude arithmetic")
c("C46", MODEL, "exploration", H + "floats next to integers and to each other, decimals around the middle between two digits, all bit patterns, compared with exact fractions")
c("C47", MODEL, "exploration", H + "fractions with shared factors and halves of every digit, compared with exact arithmetic on numerators and denominators")
c("C48", MODEL, "exploration", H + "numbers around the limits of a word, all float bit patterns, symbols and constants, read back and compared in pairs")
c("C49", MODEL, "exploration", H + "histories of calls with positions around every limit, the array itself as argument and freezing, compared with a list")
c("C50", MODEL, "exploration", H + "arrays of mixed numbers, strings, nested arrays and objects with colliding hashes, blocks answering with any number or raising, compared with a list")
c("C51", "stateful property-based fuzzing with reentrant mutations under AddressSanitizer, against a list model", "exploration", H + "blocks and element methods that clear, shorten, lengthen or replace the arrays at chosen calls")
c("C52", "differential property-based fuzzing under AddressSanitizer with collections injected at callbacks, and a write-barrier model", "exploration", H + "the same call with and without collections at chosen callbacks; changes of old arrays with heap values")
c("C53", "stateful property-based fuzzing under AddressSanitizer against the published generator", "exploration", H + "seeds of one to a thousand words, mixed draws with bounds around every word limit, stand-in generators that lie, shorten the array and collect")
c("C54", MODEL, "exploration", H + "values with every kind of number and character in any spelling, texts with one or two places broken, nesting up to 300 000 levels, compared with a reader of the grammar")
c("C55", MODEL, "exploration", H + "histories of up to ten calls over keys of eight kinds, small and large hashes, identity comparison, defaults, frozen receivers, compared with a list of pairs")
c("C56", "stateful property-based fuzzing under AddressSanitizer with changes and collections at callbacks", "exploration", H + "scripts that store, delete, clear, replace, raise and collect at any block call, and collections at every so-many-th digest or comparison of a key")
c("C57", MODEL, "exploration", H + "paths put together from dots, slashes, names, tildes, cut and whole characters in five encodings, compared with a resolution of the text part by part")
c("C58", MODEL, "exploration", H + "histories of up to eight calls with sets, lists or the receiver itself as argument, nested sets, both comparison modes, collections at digests and comparisons, compared with lists without repetition")
c("C59", "stateful property-based fuzzing against an exact model, under AddressSanitizer", "exploration", H + "histories of calls on buffers that own bytes, view strings and view each other, and arguments and blocks that free, resize, replace and collect")
c("C60", "property-based round trip and mutation fuzzing", "exploration", H + "graphs of up to about fourteen objects of sixteen kinds with sharing and cycles, instance variables, modules and subclasses, collections whenever user code runs, and dumps with one to three alterations")

INTERP = "needs the interpreter itself to run; the interpreter crate cannot be built offline here (missing dependencies), so no generated input can be executed"
NOT_APPLICABLE = {"N01": INTERP, "N02": INTERP, "N03": INTERP, "N04": INTERP, "N05": INTERP, "N06": INTERP}
for i in range(1, 99):
    NOT_APPLICABLE.setdefault(f"C{i:02}", "the check is still being built")
NOTES = "All checks are property-based tests run by the engine in harness/pbt; see DESIGN.md."
