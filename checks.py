CHECKS = {
"C02": dict(harness="c02_array.c", level="exploration",
    modes={"history": {"asan": (40000, 800000), "msan": (15000, 300000), "plain": (60000, 2000000)}, "large": {"asan": (3000, 80000), "msan": (600, 12000), "plain": (6000, 200000)}, "huge": {"asan": (6, 100), "msan": (2, 20), "plain": (16, 800)}, "vast": {"asan": (30, 400), "msan": (10, 100), "plain": (60, 800)}},
    rule="random operation histories (1-60 calls) over one array of random element size/constructor, each call judged against an abstract sequence; non-trivial = at least 3 operations; distinct by the sequence of operations and arguments",
    min_events={"inserted": 1000, "resize-below-length": 50, "bulk-added-exact-fit": 50, "index-refused": 500, "range-clamped": 100, "wide-element": 300, "long-array": 200, "beyond-16-bit-count": 20, "beyond-16-bit-element": 50}),

"C03": dict(harness="c03_deque.c", level="exploration",
    modes={"history": {"asan": (40000, 800000), "msan": (15000, 300000), "plain": (60000, 2000000)}, "large": {"asan": (2000, 50000), "msan": (400, 8000), "plain": (5000, 150000)}, "huge": {"asan": (6, 100), "msan": (2, 20), "plain": (16, 800)}},
    rule="random histories (1-80 operations, with bursts) of one deque judged after every call against an abstract double-ended queue by full forward and backward traversal; non-trivial = at least 3 operations; distinct by operation sequence",
    min_events={"inserted": 1000, "popped-last": 200, "pop-refused-empty": 200, "reset": 50, "cleared": 50, "large-element": 1000, "beyond-16-bit-count": 20}),
"C01": dict(harness="c01_map.c", level="exploration",
    modes={"history": {"asan": (30000, 600000), "msan": (10000, 200000), "plain": (50000, 1500000)}, "large": {"asan": (4000, 80000), "msan": (1000, 20000), "plain": (8000, 200000)}, "many": {"asan": (150, 3000), "plain": (300, 8000)}, "huge": {"plain": (6, 200)}},
    rule="random histories (1-300 operations) over one map with small key alphabets (collisions, prefixes, binary and empty keys), any initial capacity and hash seed; every live key, every position and random absent keys are checked after each operation against an insertion-ordered dictionary; non-trivial = at least 3 operations; distinct by operations and keys",
    min_events={"inserted": 10000, "removed": 5000, "grown": 500, "rehashed": 200, "duplicate-refused": 500, "absent-lookup": 5000, "capacity-not-power-of-2": 500, "empty-key": 20, "overwritten-other-size": 200, "long-key": 1000, "long-value": 1000, "thousand-entries": 50, "beyond-16-bit-count": 4, "one-hash-two-keys": 2000}),
"C04": dict(harness="c04_str.c", level="exploration",
    modes={"history": {"asan": (40000, 800000), "msan": (15000, 300000), "plain": (60000, 2000000)}, "large": {"asan": (2000, 40000), "msan": (500, 10000), "plain": (4000, 100000)}, "huge": {"asan": (80, 1000), "plain": (250, 8000)}},
    rule="random edit histories (1-40 calls) of one string judged after every call against a byte-sequence model (text, length, terminator); needles are mostly pieces of the current text; non-trivial = at least 3 operations; distinct by operations and arguments",
    min_events={"replaced-many": 500, "range-replaced": 1000, "range-refused": 500, "chars-removed": 500, "self-append": 200, "file-read": 1000, "file-shorter": 50, "copy-shorter": 300, "empty-needle-refused": 50, "long-text": 1000, "long-needle": 200, "unformattable": 3000, "unreadable": 300, "beyond-16-bit-text": 300, "huge-format": 50, "huge-range": 20, "huge-occurrences": 5, "huge-needle": 20, "huge-removed": 3, "huge-gap": 20, "huge-range-refused": 10}),
"C05": dict(harness="c05_strq.c", level="exploration",
    modes={"query": {"asan": (60000, 1500000), "msan": (20000, 500000), "plain": (80000, 3000000)}, "large": {"asan": (1500, 40000), "msan": (400, 8000), "plain": (3000, 80000)}, "huge": {"asan": (40, 500), "plain": (100, 2000)}},
    rule="random texts over small and full alphabets with needles cut from the text, perturbed, or unrelated; every query is compared with direct examination of the bytes; non-trivial = non-empty text; distinct by text and needles",
    min_events={"needle-found": 5000, "needle-absent": 5000, "needle-overlaps": 500, "offsets-exhausted": 2000, "palindrome": 500, "scanned": 1000, "long-needle": 500, "huge-char-count": 20, "huge-find": 10, "huge-count": 10, "huge-offset": 30, "huge-compared": 60, "huge-prefix": 20}),
"C06": dict(harness="c06_bytebuf.c", level="exploration",
    modes={"history": {"asan": (40000, 800000), "msan": (15000, 300000), "plain": (50000, 1500000)}, "large": {"asan": (2000, 40000), "msan": (400, 8000), "plain": (4000, 100000)}, "huge": {"asan": (60, 800), "msan": (10, 100), "plain": (100, 2000)}},
    rule="random histories (1-50 calls) of one byte buffer judged after every call against a byte sequence, including file contents; non-trivial = at least 3 operations; distinct by operations and arguments",
    min_events={"typed-insert": 10000, "deleted": 2000, "delete-clamped": 500, "delete-refused": 300, "copy-shorter": 300, "copy-longer": 300, "self-append": 200, "file-roundtrip": 2000, "file-with-nul": 500, "file-empty": 50, "absurd-zeros-refused": 200, "empty-cstr": 200, "long-buffer": 1000, "write-failed": 2000, "limited-fits": 200, "beyond-16-bit-piece": 80}),
"C07": dict(harness="c07_tuple.c", level="exploration",
    modes={"layout": {"asan": (30000, 600000), "msan": (10000, 200000), "plain": (40000, 1500000)}, "huge": {"asan": (6, 100), "msan": (2, 20), "plain": (16, 800)}, "vast": {"asan": (13, 130), "plain": (26, 390)}},
    rule="random size lists (scalar, arbitrary, over 64 KiB, zero-size, all 256 four-scalar C structs laid out by the compiler), packed and not, then random writes; offsets, sizes, values and the exported struct are checked; non-trivial = at least one byte of fields; distinct by size list and writes",
    min_events={"compiler-struct": 5000, "scalar-struct": 5000, "packed": 5000, "larger-than-64K": 1000, "rewritten": 5000, "single-field": 300, "many-fields": 100, "beyond-16-bit-count": 20, "vast-field": 30}),
"C09": dict(harness="c09_variant.c", level="exploration",
    modes={"history": {"asan": (40000, 800000), "msan": (15000, 300000), "plain": (60000, 2000000)}, "large": {"asan": (3000, 60000), "msan": (600, 10000), "plain": (5000, 150000)}},
    rule="random histories (1-30 calls) over four variants; after every call the bytes, size, tag, storage ownership and live allocation count of all of them are checked; non-trivial = at least 3 operations; distinct by operations and sizes",
    min_events={"constructed": 10000, "set-shorter": 2000, "set-longer": 2000, "set-same-size": 2000, "cleared": 1000, "set-after-clear": 500, "freed": 1000, "large-value": 500}),
"C08": dict(harness="c08_tree.c", level="exploration",
    modes={"history": {"asan": (30000, 600000), "msan": (10000, 200000), "plain": (40000, 1500000)}, "large": {"asan": (1500, 30000), "msan": (300, 6000), "plain": (3000, 80000)}, "huge": {"asan": (6, 100), "msan": (2, 20), "plain": (16, 800)}, "emptied": {"asan": (1500, 30000), "msan": (300, 6000), "plain": (3000, 80000)}},
    rule="random histories (1-60 calls) over a forest; after every call all node values, child orders and the number of live heap blocks are compared with an abstract ordered tree; non-trivial = at least 3 operations; distinct by operations, nodes and value sizes",
    min_events={"inserted": 10000, "grown-children": 1000, "node-inserted": 1000, "subtree-inserted": 300, "subtree-removed": 300, "value-removed": 300, "node-removed": 1000, "foreign-refused": 500, "set-longer": 1000, "depth>=3": 500, "large-value": 1000, "wide": 200, "beyond-16-bit-count": 20, "emptied": 500, "emptied-wide": 200, "refilled": 500}),
"C10": dict(harness="c10_arena.c", level="exploration",
    modes={"region": {"asan": (30000, 600000), "msan": (10000, 200000), "plain": (40000, 1500000)}, "bistack": {"asan": (30000, 600000), "msan": (10000, 200000), "plain": (40000, 1500000)}, "large": {"asan": (2000, 40000), "msan": (400, 8000), "plain": (4000, 100000)}, "vast": {"asan": (20, 300), "plain": (60, 3000)}},
    rule="random request/reset/resize histories over arenas of any size (owned and borrowed); every block is checked for bounds, alignment, disjointness, order and untouched contents, and the remaining space for exact accounting; non-trivial = at least 3 operations; distinct by sizes and operations",
    min_events={"granted": 20000, "refused": 10000, "absurd-refused": 5000, "odd-size": 5000, "exhausted": 500, "front-reset": 1000, "back-reset": 1000, "resized": 500, "large-arena": 3000, "beyond-4-GiB": 50}),
"C11": dict(harness="c11_objpool.c", level="exploration",
    modes={"history": {"asan": (40000, 800000), "msan": (15000, 300000), "plain": (60000, 2000000)}, "large": {"asan": (600, 12000), "msan": (100, 2000), "plain": (1200, 30000)}, "huge": {"asan": (8, 100), "msan": (2, 20), "plain": (16, 800)}},
    rule="random alloc/free/cleanup histories in LIFO, FIFO and random order over pools of any object size; slots, contents and the free count are checked after each call; non-trivial = at least 3 operations; distinct by sizes and operations",
    min_events={"granted": 20000, "released": 10000, "exhausted-refused": 2000, "all-released": 1000, "foreign-refused": 5000, "absurd-refused": 500, "wide-object": 100, "long-pool": 300, "beyond-16-bit-count": 20}),
"C12": dict(harness="c12_mempool.c", level="exploration",
    modes={"history": {"asan": (25000, 500000), "msan": (10000, 200000), "plain": (40000, 1200000)}, "large": {"asan": (1200, 24000), "msan": (200, 4000), "plain": (2500, 60000)}, "join": {"asan": (4000, 80000), "plain": (8000, 300000)}},
    rule="random alloc/realloc/free histories over pools of 100-6000 bytes in several orders; after each call every live block is intact, disjoint and inside the pool and free + lent bytes add up to the pool; now and then everything free is drained with ever smaller requests and all but small fragments must be lent; non-trivial = at least 3 operations; distinct by sizes and operations",
    min_events={"granted": 20000, "large-granted": 5000, "released": 10000, "resized": 2000, "resize-refused": 500, "refused": 1000, "foreign-refused": 2000, "all-released": 200, "kilobyte-granted": 1000, "exhausted": 5000, "exhausted-in-pieces": 2000, "joined": 5000, "whole-again": 10000}),
"C13": dict(harness="c13_numlex.c", level="exploration",
    modes={"valid": {"asan": (60000, 1500000), "msan": (20000, 400000), "plain": (60000, 2000000)}, "malformed": {"asan": (40000, 800000), "plain": (40000, 1500000)}, "arbitrary": {"asan": (40000, 1000000), "msan": (10000, 300000), "plain": (60000, 2000000)}, "convert": {"asan": (20000, 400000), "plain": (20000, 500000)}, "longlit": {"asan": (200, 2000), "plain": (600, 10000)}},
    rule="generated valid literals of all eight literal kinds followed by arbitrary text, literals with one definite mistake, mutated/random number-like text through all ten scanners, and base conversions at the limits of the type; accepted text is judged by an independent grammar; non-trivial = non-empty text; distinct by kind and text",
    min_events={"accepted": 50000, "float": 20000, "with-separators": 10000, "sign-follows": 5000, "malformed-rejected": 20000, "exact-error-code": 10000, "accepted-prefix": 5000, "empty-text": 500, "float-converted": 5000, "int-converted": 10000, "overflow-reported": 1000, "bad-digit-reported": 1000, "long-literal": 500, "beyond-16-bit-literal": 50, "long-float-converted": 50, "beyond-intmax": 2000}),
"C14": dict(harness="c14_text.c", level="exploration",
    modes={m: {"asan": (a, a*25), "msan": (a//4, a*6), "plain": (a, a*30)} for m, a in {"comments": 30000, "strings": 40000, "multiquote": 25000, "words": 25000, "arbitrary": 30000}.items()} | {"longtext": {"asan": (200, 2000), "plain": (600, 10000)}, "classes": {"asan": (1110,3000), "plain": (1110,6000)}},
    rule="generated comments, quoted and raw strings with every escape form, multi-character quotes and words, terminated or cut at every kind of end, in exactly sized buffers; end position, collected text, line counts and verdict are compared with reference readings; plus arbitrary bytes for bounds only; non-trivial = non-empty text; distinct by text",
    min_events={"string-decoded": 10000, "hex-escape": 5000, "octal-3-digits": 1000, "unicode-escape": 1000, "unterminated": 3000, "trailing-backslash": 500, "bad-escape-rejected": 500, "raw-string": 2000, "line-comment": 10000, "continued-comment": 5000, "dangling-backslash": 500, "block-comment": 10000, "block-comment-unterminated": 2000, "multiquote": 10000, "multiquote-unterminated": 3000, "identifier": 5000, "utf8-word": 150, "carriage-return": 1000, "empty": 200, "long-text": 500, "long-token": 30, "beyond-16-bit-lines": 20, "raw-backslash": 2000, "class-block": 2220}),
"C15": dict(harness="c15_utf8.c", level="exploration",
    modes={"codepoints": {"plain": (1088, 1088), "asan": (1088, 1088), "msan": (200, 1088)}, "text": {"asan": (40000, 800000), "msan": (10000, 200000), "plain": (40000, 1500000)}, "malformed": {"asan": (40000, 1000000), "msan": (10000, 200000), "plain": (30000, 1000000)}, "longtext": {"asan": (100, 1000), "plain": (300, 5000)}},
    rule="every code point from U+0001 to U+10FFFF encoded and decoded alone in exactly sized buffers (all 1088 blocks in each run), random texts through all converters, iterators and streams, and malformed byte strings; non-trivial = non-empty text; distinct by block or text",
    min_events={"code-point": 1114111*2, "cut-sequence": 3000000, "out-of-range": 20000, "text-roundtrip": 50000, "stream": 5000, "malformed": 50000, "long-text": 300, "beyond-16-bit-text": 80, "cut-text": 10000}),
"C16": dict(harness="c16_math.c", level="exploration",
    modes={"value": {"asan": (40000, 800000), "msan": (10000, 200000), "plain": (60000, 2000000)}, "malformed": {"asan": (40000, 800000), "msan": (10000, 200000), "plain": (20000, 1000000)}, "deep": {"asan": (44, 440), "plain": (44, 440)}, "chain": {"asan": (600, 6000), "plain": (1500, 30000)}, "names": {"asan": (600, 12000), "msan": (200, 4000), "plain": (1500, 60000)}},
    rule="random expressions written together with their value (all operators, groups, functions with and without a group, variables up to 63 characters, numbers up to 150 digits, default and custom callbacks), compared bit for bit; plus malformed token strings and nesting up to 3 million levels; non-trivial = at least 3 characters; distinct by text",
    min_events={"evaluated": 50000, "function": 10000, "function-without-group": 3000, "power": 10000, "variable": 10000, "longest-name": 1000, "long-number": 5000, "grouped": 10000, "no-callback": 1000, "malformed": 30000, "long-token": 3000, "long-chain": 400, "beyond-16-bit-chain": 80, "nested-groups": 400, "sign-run": 400, "nested-evaluation": 3000, "names-far": 300, "names-deep": 300}),
"C17": dict(harness="c17_cfg.c", level="exploration", wraps=["harbol_write_msg"],
    modes={"text": {"asan": (20000, 400000), "msan": (6000, 120000), "plain": (30000, 1000000)}, "file": {"asan": (5000, 100000), "plain": (6000, 100000)}, "broken": {"asan": (15000, 300000), "msan": (4000, 80000), "plain": (15000, 300000)}, "deep": {"asan": (90, 900), "plain": (90, 900)}, "large": {"asan": (6, 60), "plain": (6, 60)}, "chain": {"asan": (1500, 40000), "plain": (1500, 40000)}, "counters": {"asan": (600,20000), "msan": (200,4000), "plain": (1500,60000)}, "longchain": {"asan": (120,3000), "plain": (150,5000)}},
    rule="documents generated together with the tree they state (all value kinds, numeric notations, escapes, enumerations, math, inclusion, comments and layout, nesting), compared entry by entry and through all getters by present and absent paths; documents with one mistake at a known line; deep nesting; non-trivial = non-empty document; distinct by text",
    min_events={"document": 20000, "binary": 5000, "separators": 2000, "float": 10000, "color": 5000, "vector": 5000, "iota": 10000, "enum-key": 10000, "math": 10000, "math-key": 5000, "escaped-dot": 5000, "nested-path": 10000, "path-absent": 20000, "included": 500, "cycle": 200, "empty-file": 50, "broken": 10000, "line-reported": 5000, "duplicate": 500, "too-deep": 10, "deep-accepted": 10, "large": 12, "shared-inclusion": 300, "nested-inclusion": 500, "enum-marks": 3000, "inclusion-missing": 500, "broken-file": 2000, "many-sections": 20, "mistake-in-included": 300, "counter": 20000, "long-iota-run": 500, "two-digit-enum": 300, "long-chain": 200, "very-long-chain": 60}),
"C18": dict(harness="c18_cfgsafe.c", level="exploration", wraps=["harbol_write_msg"],
    modes={"mutated": {"asan": (20000, 500000), "msan": (6000, 150000), "plain": (30000, 1000000)}, "tokens": {"asan": (25000, 500000), "msan": (8000, 150000), "plain": (30000, 1000000)}, "bytes": {"asan": (15000, 400000), "msan": (5000, 100000), "plain": (20000, 500000)}, "cut": {"asan": (600, 12000), "msan": (150, 3000)}, "repeat": {"asan": (2000, 40000), "msan": (800, 15000), "plain": (2500, 80000)}, "several": {"asan": (8000, 200000), "msan": (2500, 50000), "plain": (10000, 400000)}},
    rule="valid documents with random edits, truncation at every position, token soup and random bytes (as text in exactly sized buffers and as files with NULs), each parsed twice; the result tree is walked and written out; non-trivial = non-empty input; distinct by bytes",
    min_events={"entry": 20000, "reported": 10000, "accepted": 1000, "something-read": 5000, "truncated": 2000, "cut": 20000, "as-file": 1000, "unreadable-file": 1000, "repeated": 4000, "long-input": 1000, "very-long-input": 50, "several-files": 10000}),
"C19": dict(harness="c19_cfgtrip.c", level="exploration", wraps=["harbol_write_msg"],
    modes={"trip": {"asan": (15000, 300000), "msan": (5000, 100000), "plain": (25000, 800000)}, "big": {"asan": (24, 400), "plain": (200, 2000)}},
    rule="random trees built through the map and variant API with arbitrary key and value texts and numeric extremes, written as text and to new, overwritten and appended files, read back and compared; non-trivial = at least one entry; distinct by keys, types and values",
    min_events={"text-roundtrip": 10000, "file-roundtrip": 3000, "needs-escape": 3000, "empty-string": 300, "appended-file": 500, "empty-file": 100, "empty-section": 500, "int": 3000, "float": 3000, "color": 3000, "vector": 3000, "big": 80, "deep-tree": 15, "wide-section": 15, "long-text": 10, "enormous-float": 300}),
"C20": dict(harness="c20_cfgset.c", level="exploration", wraps=["harbol_write_msg"],
    modes={"history": {"asan": (12000, 250000), "msan": (4000, 80000), "plain": (20000, 600000)}, "deep": {"asan": (120, 3000), "plain": (200, 6000)}},
    rule="random histories (1-15) of typed writes, conversions, nulling, evaluation and reads by existing and absent paths over a parsed document; the entire tree is compared after every call; non-trivial = at least 3 operations; distinct by document and operations",
    min_events={"converted": 5000, "same-type": 1000, "other-type-refused": 5000, "absent-refused": 2000, "nulled": 500, "section-converted": 500, "null-converted": 500, "empty-string-set": 300, "evaluated": 300, "deep": 300, "very-deep": 20, "own-text": 500, "long-text": 50}),
"C21": dict(harness="c21_msg.c", level="exploration",
    modes={"span": {"asan": (12000, 250000), "msan": (3000, 60000), "plain": (20000, 500000)}, "bytes": {"asan": (10000, 200000), "msan": (3000, 50000)}, "message": {"asan": (10000, 200000), "plain": (10000, 300000)}, "large": {"asan": (60, 2000), "plain": (150, 6000), "msan": (20, 400)}, "many": {"asan": (8, 80), "plain": (12, 200)}},
    rule="random sources (empty, one line, many lines, every newline style, tabs, no final newline; as text or file) with random labels (in, across, past and outside the text, reversed, zero width, huge) and notes over several diagnostics, rendered independently and compared byte for byte; messages with every combination of file, line, column and counter; arbitrary bytes as source for memory safety; distinct by source, labels and notes",
    min_events={"label": 20000, "note": 5000, "line-shown": 20000, "span-line-zero": 500, "span-past-end": 500, "span-outside": 500, "span-reversed": 500, "span-huge": 100, "zero-width": 500, "columns-reversed": 500, "notes-only": 500, "empty-source": 500, "no-final-newline": 2000, "single-line": 300, "from-file": 2000, "missing-file": 500, "with-nul": 1000, "message": 20000, "counted": 5000, "thousand-lines": 10, "ten-thousand-lines": 10, "lines-64k": 10, "line-64k": 10, "label-over-hundreds": 10, "labels-beyond-16-bits": 3, "notes-beyond-16-bits": 3, "many-cleared": 2}),
"C22": dict(harness="c22_plugin.c", level="exploration",
    modes={"life": {"asan": (3000, 60000), "plain": (4000, 100000)}, "scan": {"asan": (1500, 30000), "plain": (1500, 40000)}},
    rule="random load/reload/query/clear histories of four plugins over five module files that are replaced, removed and touched meanwhile (real shared objects whose constructors and destructors report themselves), and scans of generated directory trees (subdirectories, hidden, dangling links, over-long paths, empty, missing); distinct by operations or by file names",
    min_events={"loaded": 2000, "unloaded": 1000, "reloaded": 500, "reload-failed": 100, "load-refused": 300, "shared-module": 200, "symbol-found": 1000, "changed": 50, "visited": 3000, "subdirectory": 500, "dangling-link": 100, "missing-directory": 200, "path-too-long": 10, "closed-directory": 100}),
"C25": dict(harness="c25_helpers.c", level="exploration",
    modes={"ints": {"asan": (6000, 200000), "plain": (10000, 400000), "msan": (1000, 20000)}, "logs": {"asan": (3000, 100000), "plain": (3000, 200000)}, "hashes": {"asan": (5000, 150000), "msan": (2000, 40000), "plain": (5000, 150000)}},
    rule="every helper evaluated at zero, powers of two and ten and their neighbours, type extremes and random values and compared with naive definitions; logarithm tables for bases 3-64 exhaustively and random bases to SIZE_MAX; hashes of random keys in exactly sized buffers; distinct by arguments",
    min_events={"integer": 200000, "zero": 2000, "negative": 10000, "extreme": 5000, "aligned": 100000, "in-bounds": 10000, "out-of-bounds": 10000, "logarithm": 500000, "hash": 50000, "switch-many": 50000, "empty-key": 2000, "allocation-failed": 2000}),
"C26": dict(harness="c26_mem.c", level="exploration",
    modes={"growth": {"asan": (8000, 200000), "msan": (2000, 40000), "plain": (8000, 300000)}, "copies": {"asan": (8000, 150000), "msan": (2000, 40000), "plain": (8000, 200000)}, "shifts": {"asan": (10000, 300000), "plain": (15000, 500000)}, "files": {"asan": (2000, 40000), "msan": (500, 10000), "plain": (2000, 40000)}, "vast": {"asan": (150, 3000), "plain": (300, 6000), "msan": (60, 600)}},
    rule="random sizes (zero, small, large, impossible) of one to five buffers, with an allocation failure at a random position; random removals at every position with amounts up to SIZE_MAX; files of every size class including empty, missing and a directory; all compared with shadow copies; distinct by sizes or contents",
    min_events={"recalloc": 10000, "multi": 5000, "multi-recalloc": 5000, "allocation-failed": 5000, "impossible-size": 500, "stop-byte-found": 3000, "stop-byte-absent": 3000, "resized": 10000, "duplicated": 8000, "formatted": 8000, "unformattable": 500, "shift": 20000, "shift-past-end": 2000, "shift-outside": 2000, "shift-three": 2000, "file": 3000, "large-file": 300, "empty-file": 500, "missing-file": 2000, "vast": 400, "shift-vast": 100, "line-ends": 500}),
"C27": dict(harness="c27_links.c", level="exploration",
    modes={"single": {"asan": (15000, 400000), "plain": (15000, 400000)}, "double": {"asan": (20000, 500000), "plain": (20000, 500000)}, "triple": {"asan": (5000, 100000), "plain": (5000, 100000)}},
    rule="random histories (1-30) of head, tail and middle insertions and removals of twelve nodes over two lists (nodes re-used with stale links, with and without a tail), every chain walked in both directions after every call; distinct by operations",
    min_events={"to-head": 20000, "to-tail": 20000, "after": 20000, "without-tail": 2000, "first-node": 10000, "unlinked": 10000, "removed-only": 3000, "removed-head": 3000, "removed-tail": 3000, "removed-middle": 3000, "triple": 50000}),
"C28": dict(harness="c28_rand.c", level="exploration",
    modes={"sequence": {"asan": (1200, 30000), "msan": (300, 6000), "plain": (2500, 100000)}},
    rule="one to three interleaved generators with small, power-of-two, extreme and random seeds or an unseeded state, up to 60000 numbers each (as words and as floats), re-seeded and copied on the way; every number compared with the recurrence; distinct by seeds",
    min_events={"word": 2000000, "float": 200000, "regenerated": 3000, "switched": 10000, "copied": 200, "reseeded": 200, "lazily-seeded": 500}),
"C23": dict(technique="runtime monitoring with allocation-failure injection at every allocation request (twin-run oracle, link-time malloc wrapping), under ASan+UBSan and MSan builds", harness="c23_oom.c", level="fault_enumeration", wraps=["harbol_write_msg"],
    modes={"containers": {"asan": (4000, 80000), "msan": (1600, 20000), "plain": (8000, 200000)}, "parsers": {"asan": (1500, 30000), "msan": (500, 8000), "plain": (2000, 60000)}, "files": {"asan": (1800, 30000), "msan": (600, 6000), "plain": (1800, 40000)}},
    rule="random histories (1-40 calls) of one object of every module run against a twin; before each call takes effect it is repeated with every single allocation request failing and with all requests from each position failing (up to 60 positions per call); constructors likewise; everything that reads or writes files likewise; non-trivial = at least 3 calls; distinct by calls and verdicts",
    min_events={"call": 100000, "fault": 400000, "fault-all-from": 200000, "fault-in-pure-call": 200000, "refused": 100000, "retried": 40000, "completed-anyway": 300, "constructor-fault": 80000, "constructor-refused": 20000, "k-map": 500, "k-array": 250, "k-deque": 500, "k-string": 500, "k-bytebuffer": 250, "k-tuple": 250, "k-tree": 500, "k-variant": 250, "k-bistack": 250, "k-region": 250, "k-objpool": 250, "k-mempool": 250, "k-config": 500, "k-diagnostics": 250, "k-scanner": 250, "file-fault": 20000, "file-refused": 5000, "file-call": 2000}),
"C24": dict(technique="runtime monitoring of an allocation ownership ledger over mixed-object histories, under ASan+UBSan and MSan builds", harness="c24_own.c", level="exploration", wraps=["harbol_write_msg"],
    modes={"bag": {"asan": (1500, 30000), "msan": (400, 8000), "plain": (2500, 80000)}, "single": {"asan": (2500, 50000), "msan": (600, 10000), "plain": (4000, 120000)}},
    rule="bags of 1-25 objects of all seventeen kinds with 5-150 interleaved calls, clears, destructions (once or twice) and re-creations in random order; each heap block is tagged with the object whose call allocated it; after every call all other objects are compared with their previous contents; non-trivial = at least 3 calls; distinct by objects and calls",
    min_events={"call": 300000, "created": 30000, "destroyed": 30000, "destroyed-twice": 8000, "recreated": 5000, "cleared": 4000}),
"C29": dict(technique="ThreadSanitizer plus offline comparison of recorded per-thread results with the same calls run alone", harness="c29_threads.c", level="exploration", wraps=["harbol_write_msg"], cflags=["-DVF_THREADS"],
    modes={"own": {"tsan": (600, 12000), "asan": (600, 12000), "plain": (1500, 40000)}, "readers": {"tsan": (400, 8000), "plain": (600, 20000)}, "misc": {"tsan": (400, 8000), "asan": (400, 8000), "plain": (1000, 30000)}},
    rule="2-6 threads started at a barrier, each running 30-200 seeded calls on its own one to six objects of all modules with random yields and sleeps; ThreadSanitizer watches every access of the library; afterwards each thread's calls are repeated alone and results, contents and messages compared; second mode: threads query the same unmodified objects; distinct by the observed interleaving of calls (relaxed tickets); non-trivial = the threads alternated at least once",
    min_events={"call": 400000, "thread": 3500, "reader": 1200, "switch": 20000, "overlapped": 500, "one-kind": 400, "mixed-kinds": 400, "free-function-thread": 4000}),
}
