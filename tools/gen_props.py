#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as Python so that long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "The hash map is an insertion-ordered dictionary",
 """For every history of insert, set-by-key, set-by-index, get, has-key, find-by-value, remove-by-key, remove-by-index, rehash and clear, with any key bytes (binary, empty, prefixes of one another, colliding) and
 any initial capacity, the map behaves exactly like an insertion-ordered dictionary: every live key is found with the last bytes stored for it, no removed or never-inserted
 key is found, duplicate inserts are refused without changing anything, and the number of entries is exact. Entries keep their insertion order under positional access, removal closes the gap without
 disturbing any other key, and key and value bytes with their lengths are stored verbatim, independent of the caller's buffers. No operation reads or writes outside live memory or
 fails to terminate, whatever the collision pattern.""",
 ["histories","inputs"],
 """all operation histories over all key sets (including colliding keys, empty values, binary keys, keys that are prefixes of one another), all
 initial capacities, all hash seeds, growth and rehash at any point""",
 "test_map.c inserts a handful of distinct string keys once; collisions, removal under collision, wrap-around probing, copy and rehash after removal are never combined, and the hash seed is random per run.",
 ["map/map.c","map/map.h","harbol_common_includes.h"],
 [("open addressing bucket table over parallel entry arrays","map/map.c harbol_map_insert/_rehash/_get_entry_index/_idx_rm"),("string/byte hashing with per-map seed","harbol_common_includes.h")],
 ["return values of harbol_map_*; entries read back by key and by position after every mutation"],
 [("buckets","open-addressed index table","map/map.h"),("keys/datum/keylens/datalens","insertion ordered entry storage","map/map.h")])

prop("C02", "The dynamic array is an exact sequence",
 """For every history of grow, resize, shrink, insert, append, index write, fill, pop, peek, delete by index, by range or by value, reversal (harbol_array_swap), shift-up, bulk add, bulk copy and wipe, at any element size, the
 array's length and contents are exactly those of an abstract sequence given the same operations, find and count agree with that sequence, and the length never exceeds the capacity. Operations on positions or in
 states that do not exist (index beyond the length, pop of an empty array, insert into a full array) are refused and leave the sequence unchanged; a range deletion that runs past the end stops at the end.
 Every access stays inside the array's own storage.""",
 ["histories","inputs"],
 "all histories, element sizes 1..N, capacities including zero, indices in and out of range, ranges that cross the end",
 "test_array.c runs one fixed script with int elements; element sizes, boundary indices, range deletes that cross the end and resize below the length are not sampled.",
 ["array/array.c","array/array.h"],
 [("length/capacity bookkeeping and memmove shifting","array/array.c")],
 ["len/cap/table after each call"],
 [("table,len,cap","backing storage","array/array.h")])

prop("C03", "The deque behaves as a double-ended queue",
 """For every history of append, prepend, pop-front, pop-back, reads at both ends, reset and clear, with elements of any sizes, the deque yields exactly the elements of an abstract double-ended queue: front and back give the
 true ends, forward (head, next) and backward (tail, prev) traversal visit every element exactly once in order, and the count is exact. Popping an empty deque is refused and changes nothing, and storage released by
 pops is reused without ever aliasing two live elements.""",
 ["histories"],
 "all interleavings of operations at both ends, element sizes, growth points, and copies taken at any point",
 "test_deque.c does a few appends, prepends and pops; the index-linked list's behaviour after emptying, wrap-around through the free list and growth is not reached.",
 ["deque/deque.c","deque/deque.h"],
 [("index-linked next/prev arrays with a free list","deque/deque.c")],
 ["harbol_deque_* results, traversal"],
 [("nexts/prevs/head/tail/len","linked order","deque/deque.h")])

prop("C04", "Strings always hold exactly the expected text",
 """For every history of copy, append (text, character, repeated character, itself), formatted append or replacement, range replacement, substring replacement, character replacement and removal, whitespace removal, reversal, case change,
 reading from a file and clear, a string holds exactly the text an abstract byte sequence would hold, its recorded length equals the length of that text and the text is NUL terminated. Rejected arguments
 (ranges outside the text, empty needles) leave the text unchanged, and no call reads or writes outside the string's own storage or runs forever.""",
 ["histories","inputs"],
 "all operation histories and all argument strings (empty, longer, overlapping occurrences, repeated needles), counts and ranges",
 "test_str.c applies each call once to fixed literals; length bookkeeping after chains of edits and boundary arguments are not sampled.",
 ["str/str.c","str/str.h"],
 [("cstr/len bookkeeping over realloc","str/str.c")],
 ["cstr and len after each call"],
 [("cstr,len","text and its length","str/str.h")])

prop("C05", "String queries agree with the text",
 """For every text and every pattern, the string query functions (find or count a character, count a substring, all offsets of a substring, equality comparison with text or string, emptiness, palindrome test of a non-empty text, and
 scanf-style scanning) return exactly what a direct examination of the text gives: existing occurrences are all found and none is invented, comparisons are zero exactly for equal texts, and a query never modifies
 the string, reads outside it, or fails to terminate.""",
 ["inputs"],
 "all texts and patterns, including empty ones, overlapping occurrences, patterns longer than the text and bytes >= 0x80",
 "test_str.c queries a few literal pairs; overlapping needles, absent needles and empty texts are not covered.",
 ["str/str.c","str/str.h"],
 [("strstr/strchr based scanning","str/str.c")],
 ["return values and unchanged text"])

prop("C06", "Byte buffers are byte-exact in memory and on disk",
 """For every history of typed integer, float, byte, C-string, object and zero-fill insertion, range deletion, append, copy, clear and file write/read, a byte buffer holds exactly the concatenation of the native
 representations of what was inserted, in order, and its length is exact. Deletion removes exactly the requested bytes (stopping at the end), appending or copying never alters the source, even when source and destination are the same buffer, impossible sizes
 are refused without effect, and writing to a file then reading it back yields an identical buffer, including embedded NUL bytes.""",
 ["histories","inputs"],
 "all histories, insertion sizes from zero upward, deletion positions, file contents of any bytes",
 "test_bytebuffer.c inserts one value of each type and prints; boundaries at capacity growth, empty buffers and round trips through files with arbitrary bytes are not checked.",
 ["bytebuffer/bytebuffer.c","bytebuffer/bytebuffer.h"],
 [("growable byte table","bytebuffer/bytebuffer.c")],
 ["table bytes and len after each call, file contents"],
 [("table,len,cap","bytes","bytebuffer/bytebuffer.h")])

prop("C07", "Tuples lay fields out disjointly and match C structs",
 """For every list of field sizes, a tuple's fields occupy pairwise disjoint byte ranges inside its storage, in the given order, and a packed tuple has no gaps. For fields of the scalar sizes 1, 2, 4 and 8 an unpacked tuple places every field, and sizes the whole, exactly
 as a C compiler lays out the struct of such members. Writing one field never changes another, reading returns the last bytes written, out-of-range fields are refused, and exporting to a struct transfers every byte exactly.""",
 ["inputs","histories"],
 "all field-count and field-size combinations (packed and unpacked), all orders of field writes",
 "test_tuple.c builds one or two fixed layouts; the layout arithmetic is only meaningful over all size sequences.",
 ["tuple/tuple.c","tuple/tuple.h"],
 [("offset/size packing and alignment rounding","tuple/tuple.c")],
 ["field pointers, sizes, total size"])

prop("C08", "Trees own their nodes and keep child order",
 """For every history of creating, inserting (by node or by value), looking up, re-valuing, removing (by index, node or value) and clearing nodes at any nesting, a tree contains exactly the nodes of an abstract ordered tree: children keep
 insertion order, removal detaches exactly one subtree, value lookups match on full size and content, removing something that is not a child is refused, and each node's value is exactly the bytes last stored, at whatever size. All memory of a removed or
 cleared subtree is released exactly once and no call touches memory outside a node's value.""",
 ["histories","inputs"],
 "all tree shapes, value sizes (including growing and shrinking on update), and removal orders",
 "test_tree.c builds a small fixed tree of ints; values of different sizes, updates that grow a value and nested removal are not covered.",
 ["tree/tree.c","tree/tree.h","array/array.c"],
 [("child vector of node pointers and owned value bytes","tree/tree.c")],
 ["node data, child vector, live allocation accounting"])

prop("C09", "Variants hold exactly the stored value and type",
 """For every history of creating, setting and clearing variants with values of any non-zero size, reading a variant yields exactly the last stored bytes, size and type tag, kept independently of the caller's buffer and of every other variant; setting a shorter,
 equal or longer value keeps nothing of the old one visible, and clearing releases the storage, returns to the empty state and allows reuse.""",
 ["histories","inputs"],
 "all value sizes, type tags and operation orders, sources overlapping nothing",
 "test_variant.c stores an int, a float and a struct once each.",
 ["variant/variant.c","variant/variant.h"],
 [("owned byte copy with size and tag","variant/variant.c")],
 ["data/len/flags after each call"])

prop("C10", "Arena allocators hand out disjoint, aligned, in-bounds memory",
 """For every history of requests, region and double-ended-stack allocators return either nothing or a word-aligned block lying entirely inside their backing memory and disjoint from every block still outstanding; a region's block is zero-filled. The stack's two ends
 never overlap, and the remaining-space figure falls exactly as blocks are taken. A request that does not fit (including absurd sizes near SIZE_MAX) is refused without changing the allocator, and resetting one end or the whole
 arena makes precisely that space available again.""",
 ["histories","inputs"],
 "all sequences of request sizes (zero, unaligned, larger than remaining, near SIZE_MAX), both ends, resets, owned and borrowed backing memory",
 "test_region.c/test_bistack.c make a few small allocations that all fit; exhaustion boundaries and reset reuse are not sampled.",
 ["allocators/region/region.c","allocators/bistack/bistack.c"],
 [("bump offsets with alignment rounding","allocators/region/region.c, allocators/bistack/bistack.c")],
 ["returned pointers, contents, remaining counters"])

prop("C11", "The object pool never lends one slot twice",
 """For every history of allocation, release of lent objects and cleanup, every object handed out lies in the pool, at a slot boundary, is zero-filled and disjoint from all objects still lent out, and keeps its contents; released slots
 become available again, exactly as many objects as the capacity can be outstanding, and the free count is exact. An exhausted pool refuses further requests, and releasing a pointer that is not
 a slot of the pool is refused and changes nothing.""",
 ["histories","inputs"],
 "all interleavings of allocation and release orders, object sizes, pool sizes, owned and borrowed memory, foreign pointers",
 "test_objpool.c allocates and frees a handful of objects in one order; exhaustion, reuse orders and foreign pointers at the boundary are not covered.",
 ["allocators/objpool/objpool.c","allocators/objpool/objpool.h"],
 [("lazily initialised intrusive free list","allocators/objpool/objpool.c")],
 ["returned pointers, free_blocks"])

prop("C12", "The memory pool never overlaps or loses live blocks",
 """For every history of alloc, resize and free, every live block of a memory pool lies inside the pool, is disjoint from all other live blocks, is zero-filled when allocated and keeps its contents until it is freed; a resize preserves
 the common prefix. No byte is lost: free space plus lent space always add up to the pool, and bytes that are free can be lent again, apart from fragments too small to
 be worth keeping. Neighbouring larger blocks released one after the other, up or down the pool, join, so that a request as large as all of them is met; when every block is released, starting next to the fresh area, the whole pool can be lent again. An allocation takes little more from the pool than was asked for. A request that cannot be met is refused and
 leaves every live block intact, and freeing anything outside the pool is refused.""",
 ["histories","inputs"],
 "all alloc/resize/free histories and sizes, all fragmentation patterns",
 "The mempool test is not even reliable on this tree; it performs a short fixed script and checks nothing about overlap.",
 ["allocators/mempool/mempool.c","allocators/mempool/mempool.h"],
 [("address-ordered free list with coalescing, bucketed small blocks","allocators/mempool/mempool.c")],
 ["returned pointers and contents"])

prop("C13", "Number scanning accepts exactly the documented literals",
 """For every input text, the C-style and Go-style number scanners and the scanners for one base accept exactly the literals of their grammar (decimal, hexadecimal, octal, binary, floating, exponents, hexadecimal floats, suffixes and digit separators),
 report whether the literal is floating, stop exactly at its end, and leave the consumed text in the lexeme. Malformed literals are reported with an error code, a scan never moves beyond the terminator,
 and converting the lexeme of an accepted integer literal (without separators) yields its mathematical value, with overflow and digits foreign to the base reported.""",
 ["inputs"],
 "all character sequences up to the generated lengths, both scanners and the specific-base scanners",
 "test_lex.c scans one curated source text; malformed suffixes, truncated prefixes and literals at end of input are not sampled.",
 ["lex/lex.c","lex/lex.h","str/str.c"],
 [("hand-written scanners","lex/lex.c lex_c_style_*, lex_go_style_*")],
 ["return code, end pointer, lexeme, is_float"])

prop("C14", "Text scanners stay inside the text and find the right extent",
 """For every NUL-terminated text, the scanners and skippers for whitespace, line and block comments, quoted, raw and multi-quoted strings, escape sequences, identifiers and delimited runs return a position inside the text (never beyond its terminator),
 consume exactly the construct they document, and count lines exactly as the newlines they consume. String scanning yields exactly the characters denoted by the literal with its escapes decoded; an
 unterminated string or malformed escape is reported as an error, and an unterminated comment ends at the terminator.""",
 ["inputs"],
 "all byte texts, in particular constructs truncated at every position and escapes at the very end of the text",
 "test_lex.c scans well-formed constructs only; truncation at each byte needs the terminator to be watched.",
 ["lex/lex.c","lex/lex.h"],
 [("character scanners","lex/lex.c skip_*, lex_*_comment, lex_*_str*, lex_identifier, lex_until")],
 ["returned pointers, lexeme, line counters; ASan red zone after the terminator"])

prop("C15", "UTF-8 conversion round-trips and never overruns",
 """For every sequence of code points, encoding to UTF-8 and decoding again returns the same sequence with exact lengths and positions, through every converter, iterator and stream function, and every valid UTF-8 byte sequence decodes to its code points and re-encodes
 identically. For arbitrary, truncated or invalid bytes every UTF-8 query and iterator terminates, rejects or reports the sequence consistently, and never reads or writes outside the given text.""",
 ["inputs"],
 "all code points 0..0x10FFFF, all mixed sequences, all malformed byte strings",
 "test_lex.c decodes one sample sentence.",
 ["lex/lex.c","lex/lex.h"],
 [("utf8 encode/decode helpers","lex/lex.c")],
 ["decoded runes, lengths, returned counts"])

prop("C16", "Formula evaluation matches its arithmetic meaning",
 """For every well-formed expression, the calculator returns the value given by the precedence and associativity of its operators (+ -, then * /, then ^ grouping from the left, unary minus, unary plus meaning absolute value) and by the definition of its built-in functions, and
 variables take exactly the values supplied by the caller's callback under their full name (up to 63 characters). For every text, however malformed or deeply nested, evaluation terminates without a crash; it is
 deterministic and independent of surrounding whitespace.""",
 ["inputs"],
 "all expressions over all operators, functions, nesting depths, numeric literal forms and identifiers; arbitrary byte strings",
 "test_math.c evaluates a few formulas and prints them.",
 ["math/math_parser.c","math/math_parser.h"],
 [("recursive descent parser over a packed token","math/math_parser.c")],
 ["returned value, success flag"])

prop("C17", "Configuration text parses to exactly what it says",
 """For every well-formed configuration document, parsing yields a tree holding exactly the keys, sections, types and values the document states - strings with escapes decoded, integers (in every base, within the range of intmax_t) and floats with their numeric value,
 booleans, null, colors, vectors, math expressions, enumerations and included files - in document order, with comments, separators and whitespace ignored. Every value is reachable under its dotted path (dots inside keys escaped) with its exact type, and paths that do not exist report
 absence. A document with a mistake is reported with the line of the mistake and whatever was read before it is kept; cyclic inclusion and excessive nesting are reported, not followed.""",
 ["inputs","programs"],
 "all documents of the configuration grammar: nesting, value kinds, key quoting, comments and layout",
 "test_cfg.c parses a fixed sample and prints it; nothing compares against what the document says over all documents.",
 ["cfg/cfg.c","cfg/cfg.h","map/map.c","lex/lex.c","math/math_parser.c"],
 [("recursive descent cfg parser into nested maps","cfg/cfg.c"),("path lookup","cfg/cfg.c _get_var")],
 ["harbol_cfg_get_* results and map order"])

prop("C18", "Parsing arbitrary configuration bytes is safe and leak-free",
 """For every sequence of bytes given as a configuration text or file, parsing terminates and returns a well-formed tree of what was read (or nothing), without reading or writing outside live memory, without undefined behaviour, and without crashing. Whether
 or not the text was accepted, once the result is freed no memory from the parse remains allocated, and parsing the same bytes again gives the same result and the same reports.""",
 ["inputs"],
 "all byte strings, especially near-valid documents mutated or truncated at any position",
 "test_cfg.c only parses valid documents.",
 ["cfg/cfg.c","lex/lex.c","map/map.c","math/math_parser.c","msg_sys/msg_sys.c"],
 [("error paths of the cfg parser","cfg/cfg.c")],
 ["sanitizer reports, allocation ledger, parse outcome"])

prop("C19", "Configurations survive being written out and read back",
 """For every configuration tree of sections, strings (free of the special marks <math, <enum> and <include>), integers, floats, booleans, nulls, colors and vectors, writing it as text or to a file (new, overwritten or appended) and parsing that text yields a tree with the same keys in the same order, the
 same types and the same values (floats to the printed precision). Serialising is a pure observation: it leaves the tree unchanged and yields the same text each time.""",
 ["inputs","histories"],
 "all configuration trees: nesting shapes, key and value texts including quotes, backslashes and control characters, numeric extremes",
 "test_cfg.c writes one file and never compares it with the original.",
 ["cfg/cfg.c","cfg/cfg.h"],
 [("harbol_cfg_to_str / harbol_cfg_build_file","cfg/cfg.c")],
 ["re-parsed tree versus original"])

prop("C20", "Typed configuration edits are exact and local",
 """For every history of typed reads and writes through dotted paths, a typed write succeeds exactly when the path exists with that type (or conversion is explicitly allowed), subsequent reads return exactly the written value and type, and
 every other entry is unchanged. Reads of a missing path or a different type are refused without altering the tree, and setting an entry to null or evaluating a math entry affects that entry alone.""",
 ["histories","inputs"],
 "all write/read histories over all paths, types and conversion flags",
 "test_cfg.c sets one value of some types on a fixed document.",
 ["cfg/cfg.c","cfg/cfg.h"],
 [("harbol_cfg_set_* / get_* over tagged variants","cfg/cfg.c")],
 ["getter results for every path after each write"])

prop("C21", "Diagnostics show the right source, place and counts",
 """For every source text (given as text or read from a file) and every set of labelled spans and notes, the rendered diagnostic names the requested file, line, column, severity and message, shows each source line covered by a span once, in order, with its own line number (line ends normalised and
 each tab shown as four spaces), marks exactly the requested columns under it, and shows each label and each note exactly once and in order. A message advances a counter it was given by exactly one and touches no other. Spans outside the text, reversed or empty spans, empty and unreadable sources and sources without a final newline
 are handled without touching memory outside the source.""",
 ["inputs","histories"],
 "all source texts (empty lines, every newline style, no trailing newline, tabs), label sets, span coordinates and messages",
 "test_msg_span.c renders one fixed source and prints it.",
 ["msg_span/msg_span.c","msg_sys/msg_sys.c"],
 [("line table and caret rendering","msg_span/msg_span.c"),("message counters","msg_sys/msg_sys.c")],
 ["bytes written to the output stream"])

prop("C22", "Plugins load, report and unload in matching pairs",
 """For every history of loading, reloading, querying, replacing the file of, and clearing plugins - over valid, broken and missing module files - a plugin is loaded exactly when the last load or reload succeeded and it was not cleared since; the module itself is mapped while some plugin holds it and released afterwards; the load and unload callbacks run
 exactly once for each load, reload and clear of a loaded module, in matching pairs with the right reloading flag; and a symbol is found exactly while a module that defines it is loaded. Failures are reported with the right error and leave nothing loaded. A directory scan calls back exactly once for every file with the requested (or the platform's) extension,
 including those in subdirectories, skips hidden directories and unreadable entries, and reports a missing directory as a failure.""",
 ["histories","configurations"],
 "all load/reload/query/clear histories over modules that appear, change, break and vanish, and all directory trees (plugins, other files, subdirectories, dangling links, over-long paths)",
 "test_plugins.c never loads an actual module; lifecycle pairing is not observed.",
 ["plugins/plugins.c","plugins/plugins.h","plugins/tinydir.h"],
 [("dlopen bookkeeping with callbacks","plugins/plugins.c"),("directory iteration","plugins/tinydir.h")],
 ["callback event log, manager contents"])

prop("C23", "Failed allocations leave objects intact",
 """When any memory allocation fails during a constructor, insertion, growth, copy or conversion of a container, string, buffer, tuple, tree, variant, configuration entry or allocator, the call does not crash; it either reports failure and
 leaves every previously existing object valid with its former observable contents, so that the same call gives its normal result when repeated with memory available, or it reports success and has done everything it does with memory available. A
 constructor that reports failure leaves nothing allocated. When an allocation fails during parsing, serialising, scanning or evaluation there is no crash and no existing object changes. Reading or writing a file under such failures also leaves no file open, and
 reports success only for complete contents when it reads a string, a buffer or runes, or writes a configuration. Once everything is destroyed nothing remains allocated.""",
 ["fault_sequences","histories"],
 "every position at which an allocation can fail, in every operation of every container and of the parsers",
 "No test injects an allocation failure.",
 ["harbol_common_includes.h","array/array.c","map/map.c","deque/deque.c","str/str.c","bytebuffer/bytebuffer.c","variant/variant.c","tree/tree.c","tuple/tuple.c","cfg/cfg.c","lex/lex.c","msg_span/msg_span.c","allocators/objpool/objpool.c","allocators/region/region.c","allocators/bistack/bistack.c","allocators/mempool/mempool.c"],
 [("recalloc/multi_calloc/multi_recalloc helpers and their callers' error paths","harbol_common_includes.h")],
 ["return codes, contents, allocation ledger"])

prop("C24", "Every allocation is released exactly once by destruction",
 """For every history of operations on every container, string, buffer, tree, tuple, variant, configuration, diagnostics span and allocator, and whatever order
 they are destroyed, cleared or reused in, all memory the library allocated for an object is released exactly once, at the latest when that object is destroyed: nothing is leaked, freed twice or used
 after release, and no object ever releases another object's memory. Clearing an object makes it reusable and clearing or destroying it twice is harmless. A call on one object never changes the contents of another independent one.""",
 ["histories"],
 "all histories that mix operations, clears, destroys and reuse across all modules",
 "Valgrind runs over the fixed test scripts only, one module at a time.",
 ["array/array.c","map/map.c","deque/deque.c","str/str.c","bytebuffer/bytebuffer.c","variant/variant.c","tree/tree.c","tuple/tuple.c","cfg/cfg.c","allocators/objpool/objpool.c","allocators/region/region.c","allocators/bistack/bistack.c","msg_span/msg_span.c"],
 [("_clear/_free/_cleanup of every module","all modules")],
 ["allocation ledger with per-object ownership (malloc/calloc/realloc/free wrapped at link time)"])

prop("C25", "Numeric, bit and hashing helpers equal their definitions",
 """For every argument in their domain, the integer helper functions (rounding to and padding for an alignment, filling the low bits, the power of two above a number, logarithms to base 2, 10 and - through generated tables - any base from 3, digit and character counts, bounds tests of unsigned, signed and address values, alignment tests, and byte masks)
 return exactly the mathematically defined value, without undefined behaviour. Hash functions depend only on the bytes and the seed given, equal keys hash equally, and reading never strays outside the key; the string switch returns the position of the first equal entry or reports that there is none.""",
 ["inputs"],
 "all arguments: zero, powers of two and of the base and their neighbours, boundaries of each integer width, extremes of signed types, all keys and seeds",
 "The helpers have no tests of their own.",
 ["harbol_common_includes.h","harbol_common_defines.h"],
 [("inline helpers","harbol_common_includes.h")],
 ["returned values"])

prop("C26", "Memory and file helpers transfer exactly the bytes asked for",
 """For every content and size, the memory helpers (zeroing reallocation of one or several buffers, multi-buffer allocation and clean-up, copying up to a stop byte, string resizing, duplication, removal of elements from one or several parallel arrays, and formatted string allocation) keep the old bytes, zero the new ones and move exactly the requested elements, and
 the file helpers report the exact size of a regular file and return every byte of a non-empty one, followed by a zero byte. Failure (missing or empty file, directory, impossible size, no memory, text that cannot be formatted) is reported and leaves the buffers, lengths and files as they were.""",
 ["inputs","histories"],
 "all sizes, buffer counts, removal positions and amounts, stop bytes, formats, file contents, and failures at any allocation",
 "No test addresses the helpers directly.",
 ["harbol_common_includes.h"],
 [("recalloc, multi_*, dup_data, array_shift_up, sprintf_alloc, file buffers","harbol_common_includes.h")],
 ["buffers returned"])

prop("C27", "Intrusive lists keep a consistent chain",
 """For every history of adding, inserting and removing nodes (new nodes or nodes re-used with stale links), the intrusive singly and doubly linked chains contain exactly the nodes of an abstract sequence in order, the head and the tail (where kept) are its ends, the doubly linked chain is traversable from both ends, a removed node is no longer reachable from its former neighbours,
 and reading or writing one link of a node, directly or by reference, affects that link alone.""",
 ["histories"],
 "all sequences of link operations on head, middle and tail nodes",
 "No test addresses the links.",
 ["harbol_common_includes.h"],
 [("HarbolLink / HarbolBiLink / HarbolTriLink helpers","harbol_common_includes.h")],
 ["forward and backward traversal"])

prop("C28", "The random generator is the Mersenne Twister recurrence",
 """For every non-zero seed the generator produces exactly the MT19937 recurrence (624 words, middle word 397, matrix constant 0x9908b0df, the usual tempering shifts and masks) over machine words, seeded by the 6069 multiplicative generator, across any number of state regenerations and independent of other
 generator instances; its floating-point outputs lie between 0 and 1 and equal the scaled word, and equal seeds yield equal sequences.""",
 ["inputs","histories"],
 "all seeds, arbitrarily long sequences across state regeneration, interleaved generators",
 "No test uses the generator.",
 ["mtwister/mtwister.h"],
 [("twist and temper","mtwister/mtwister.h")],
 ["generated numbers"])

prop("C29", "Independent objects can be used from different threads",
 """When different threads each operate on their own objects (containers, strings, buffers, allocators, scanners, calculators, configurations, serialisers), no data race occurs and every thread obtains exactly the results it would obtain
 alone. No operation on one object has an effect on another. Queries that take a const object do not modify it, so several threads may query one unchanging object at the same time.""",
 ["schedules"],
 "all interleavings of operations on disjoint objects from several threads",
 "The tests are single threaded.",
 ["cfg/cfg.c","map/map.c","math/math_parser.c","lex/lex.c","str/str.c","msg_sys/msg_sys.c"],
 [("absence of hidden shared mutable state (function statics, globals)","all modules")],
 ["ThreadSanitizer reports; per-thread results versus a sequential run"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
