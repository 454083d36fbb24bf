"""Per-property configuration of the checks."""
COMMON_ASSUMPTIONS = [
    "clang 18 -O1 lowering of the sources to LLVM IR, and the engine's execution of that IR, represent the code (a sample of paths per entry is replayed on a native g++ build and compared)",
    "libstdc++ out-of-line functions and libc calls are replaced by the models in models/models.cpp and engine/ext.cpp; inline library code is executed as is",
    "allocation of at most 4 MiB succeeds unless the harness injects a failure; larger requests throw std::bad_alloc",
]
PROPS = {}


def P(pid, **kw):
    PROPS[pid] = kw


P("C01", bounds="every value of the integer or float type and every content of the buffers (no bound)",
  outside="nothing for the listed fixed-width functions; other widths of the generic templates are not instantiated")
P("C02", bounds=["buffers of 0..10 arbitrary bytes with every 2-operation history and of 0..4 bytes with every 3-operation history, lengths up to one past the rest; any 64-bit length on buffers of 0..2 bytes; buffers of 18 lengths up to 70000 with a long step and any next operation, 9 arbitrary bytes where the step ends; 300 bytes read by repeated operations.",
                 "buffers of 0..18 arbitrary bytes with every 2-operation history and of 0..9 bytes with every 3-operation history; any 64-bit length on buffers of 0..8 bytes; buffers of 18 lengths up to 70000 with a long step and any next operation, 9 arbitrary bytes where the step ends; 2000 bytes read by repeated operations."],
  outside="longer buffers and histories")
P("C03", steps=60000000, bounds=["byte strings of 0..8 arbitrary bytes (padded and unpadded), texts of 0..9 arbitrary characters, texts of up to 11 alphabet characters; byte strings of 18 lengths up to 769 with 3 arbitrary bytes at 4 places; texts of 14 lengths up to 1026 with 1 or 2 arbitrary characters at 3 places; texts of 65535 groups and a few more with an arbitrary last group.",
                 "byte strings of 0..24 arbitrary bytes, texts of 0..19 arbitrary characters, texts of up to 19 alphabet characters; byte strings of 21 lengths up to 3000 with 3 arbitrary bytes at 4 places; texts of 14 lengths up to 1026 with 1 or 2 arbitrary characters at 3 places; texts of 65535 groups and a few more with an arbitrary last group."],
  outside="longer inputs")
P("C04", steps=100000000, bounds=["every 32-bit code value for single-character encoding; strings of 0..2 arbitrary code values for every entry point; strings of 7 lengths up to 257 with one arbitrary code value at 4 places.",
                 "every 32-bit code value for single-character encoding; strings of 0..3 arbitrary code values for every entry point; strings of 8 lengths up to 400 with one arbitrary code value at 4 places."],
  outside="longer strings")
P("C05", steps=100000000, bounds=["byte sequences of 0..5 arbitrary bytes through every entry point; any lead byte with 0..7 continuation bytes; 0..1 arbitrary characters before every cut off sequence; 16 lengths of ASCII up to 1000 followed by 0..2 arbitrary bytes and more ASCII.",
                 "byte sequences of 0..7 arbitrary bytes through every entry point; any lead byte with 0..7 continuation bytes; 0..2 arbitrary characters before every cut off sequence; 16 lengths of ASCII up to 1000 followed by 0..3 arbitrary bytes and more ASCII."],
  outside="longer sequences")
P("C06", steps=100000000, bounds=["texts of 0..7 arbitrary characters with every single operation, 0..3 with every 2-operation history, 0..1 with every 3-operation history; stop characters and sets of up to 3 stop characters arbitrary; texts made of runs of up to 300 equal characters with an arbitrary character after each.",
                 "texts of 0..10 arbitrary characters with every single operation, 0..5 with every 2-operation history, 0..3 with every 3-operation history; texts made of runs of up to 300 equal characters with an arbitrary character after each."],
  outside="longer texts and histories; read_number is decided in C07 and C29")
P("C08", steps=100000000, bounds=["texts of 0..8 arbitrary characters with an arbitrary delimiter (char and char32_t; view, string, zero-terminated), word splitting of 0..7 characters, joining of 0..3 pieces of 0..2 characters; texts made of runs of up to 300 equal characters with an arbitrary character after each; many pieces.",
                 "texts of 0..11 arbitrary characters with an arbitrary delimiter, word splitting of 0..10 characters, joining of 0..3 pieces of 0..3 characters; texts made of runs of up to 300 equal characters with an arbitrary character after each; many pieces."],
  outside="longer texts; other character types")
P("C09", steps=100000000, configs=["r17", "r20"], bounds=["texts of 0..8 arbitrary characters; texts of 0..6 and prefixes or suffixes of 0..4 arbitrary characters; C++17 and C++20 builds; texts made of runs of up to 300 equal characters with an arbitrary character after each; long prefixes and suffixes.",
                 "texts of 0..12 arbitrary characters; texts of 0..8 and prefixes or suffixes of 0..6 arbitrary characters; C++17 and C++20 builds; texts made of runs of up to 300 equal characters with an arbitrary character after each; long prefixes and suffixes."],
  outside="longer texts; other character types")
P("C10", steps=100000000, bounds=["texts of 0..7 arbitrary characters with every width up to one more than the length, texts of 0..4 with any 32-bit width; texts made of runs of up to 300 equal characters with an arbitrary character after each, listed widths; many lines.",
                 "texts of 0..8 arbitrary characters with every width up to one more than the length, texts of 0..6 with any 32-bit width; texts made of runs of up to 300 equal characters with an arbitrary character after each, listed widths; many lines."],
  outside="longer texts")
P("C07", bounds=["every value of the 8/16/32/64-bit integer types for conversion to text in all four bases; texts of 0..5 arbitrary characters (8-bit types) and 0..4 (32/64-bit) for reading; digit strings up to and beyond the range of the 16/32/64-bit types; up to 1000 leading white space characters or zeros before 0..2 arbitrary characters.",
                 "every value of the 8/16/32/64-bit integer types for conversion to text in all four bases; texts of 0..7 arbitrary characters (8-bit types) and 0..6 (32/64-bit) for reading; digit strings up to and beyond the range of the 16/32/64-bit types; up to 1000 leading white space characters or zeros before 0..2 arbitrary characters."],
  outside="longer texts; for 32/64-bit decimal numbers the round trip is decided as two halves (canonical digits of every value; value of every digit string)")
P("C11", merge=True, bounds=["enumerations of 1, 5, 64, 70 and 130 items (8 for printing), any initial set, any item, any other operand, every operation (1 or 2 operations in a row), comparison with any set; enumerations of 32 and 63 items with one operation and construction.",
                 "enumerations of 1, 5, 64, 70 and 130 items (8 for printing), any initial set, any item, any other operand, every operation (2 or 3 operations in a row), comparison with any set; enumerations of 32, 63, 128 and 300 items with one operation and construction."],
  outside="other enumeration sizes; longer histories")
P("C12", steps=100000000, bounds="enumerations of 1, 5, 7, 70, 127, 200 and 255 items with signed and unsigned underlying types; any element values, any item; items numbered beyond 8 bits: 256, 257, 300 (iteration: 1000)",
  outside="other enumeration sizes; reverse iteration (its iterators do not instantiate)")
P("C14", configs=["r17", "d17", "r20"], bounds=["every weak ordering of 0..5 elements; 6..10 elements of two kinds; owning elements and default ordering of 0..4 elements; five arrangements of 15, 16, 17 and 31 elements with one arbitrary element at five places, both directions; C++17 and C++20 builds.",
                 "every weak ordering of 0..6 elements; 6..12 elements of two kinds; owning elements and default ordering of 0..5 elements; five arrangements of 15 to 100 (8 sizes) elements with one arbitrary element at five places, both directions; C++17 and C++20 builds."],
  outside="longer ranges")
P("C23", steps=100000000, bounds=["collections of 0..4 (vectors) or 0..3 (lists) arbitrary elements, 1 to 3 collections of all size combinations; 7 lengths up to 257 with one arbitrary element.",
                 "collections of 0..7 (vectors) or 0..5 (lists) arbitrary elements, 1 to 3 collections of all size combinations; 8 lengths up to 1000 with one arbitrary element."],
  outside="longer collections; skipping more elements than there are is a precondition violation")
P("C13", steps=100000000, bounds=["sources of 0..6 arbitrary elements of 1 or 4 bytes (strings of 0..6, wide strings of 0..3, arrays of 0, 1 and 5), every subspan of 0..5 elements, any index, containment for every address in 0..5 elements, comparison of every pair of sequences of 0..3 elements; sources, subspans and comparisons of 7 lengths up to 257 with an arbitrary element or any count.",
                 "sources of 0..10 arbitrary elements of 1 or 4 bytes (strings of 0..10, wide strings of 0..3, arrays of 0, 1 and 5), every subspan of 0..8 elements, any index, containment for every address in 0..9 elements, comparison of every pair of sequences of 0..4 elements; sources, subspans and comparisons of 14 lengths up to 1000 with an arbitrary element or any count."],
  outside="longer sequences and other element types")
P("C15", steps=100000000, bounds=["every ordered forest of 0..5 nodes with arbitrary values (vector and list children); index validity for every index of 0..3 components in forests of 0..3 nodes, components unbounded; 6 forms (chain, wide, two combs, binary, groups) of 12 and 34 nodes.",
                 "every ordered forest of 0..7 nodes with arbitrary values (vector children; 0..6 list children); index validity for every index of 0..3 components in forests of 0..4 nodes, components unbounded; 6 forms (chain, wide, two combs, binary, groups) of 9 to 300 nodes."],
  outside="larger forests; making an iterator from an empty index")
P("C16", steps=100000000, bounds=["every forest of 0..4 nodes with every single operation at every place, 0..2 nodes with every 2 operations, list children 0..3 nodes; inserted subtrees of 1 or 2 nodes or copies of any subtree; equality of every pair of trees of up to 1+2 nodes; arbitrary values; 6 forms of 12 and 34 nodes (list children: 12) with every operation at every third (list: second) place.",
                 "every forest of 0..5 nodes with every single operation at every place, 0..3 nodes with every 2 operations, list children 0..4 nodes; inserted subtrees of 1 or 2 nodes or copies of any subtree; equality of every pair of trees of up to 1+3 nodes; arbitrary values; 6 forms of 12 and 34 nodes (list children: 20) with every operation at every place."],
  outside="larger forests and longer histories")
P("C17", steps=100000000, bounds=["every history of 5 connect / disconnect / emit operations with no, by-value, owning by-value and by-reference arguments of arbitrary value; up to 9 connections; 7 numbers of connections up to 256; 70 connects, disconnects and emissions in 4 patterns.",
                 "every history of 7 (owning arguments: 6) connect / disconnect / emit operations with no, by-value, owning by-value and by-reference arguments of arbitrary value; up to 20 connections; 8 numbers of connections up to 600; 700 connects, disconnects and emissions in 4 patterns."],
  outside="longer histories; callbacks which connect or disconnect while the signal is being emitted")
P("C18", bounds="every combination of how the scope is left, what the action throws and whether it is released; three nested actions with every combination of throwing, releasing and leaving",
  outside="other numbers of nested actions")
P("C19", bounds=["every history of 4 create / failing create / destroy / local create operations over two singleton types of each form; 70 operations in 4 patterns.",
                 "every history of 5 create / failing create / destroy / local create operations over two singleton types of each form; 700 operations in 4 patterns."],
  outside="longer histories; singletons shared across shared libraries (covered by a repository test); concurrent creation (documented as not thread safe)")
P("C20", bounds=["every history of 5 operations (of 12 kinds for shared, 9 for unique references) over up to 3 objects of arbitrary content; casts among 4 dynamic types; references from the object itself for 3 class layouts; casts with up to 2 other owners and a weak observer; 7 numbers of owners and of objects up to 1000.",
                 "every history of 6 operations (of 12 kinds for shared, 9 for unique references) over up to 3 objects of arbitrary content; casts among 4 dynamic types; references from the object itself for 3 class layouts; casts with up to 2 other owners and a weak observer; 7 numbers of owners and of objects up to 1000."],
  outside="longer histories; concurrent use; a reference that was moved from has no object and must not be used")
P("C22", bounds=["collections of 0..5 (select), 0..4 (where, order_by, group_by), 0..3 (chains and lists) elements with arbitrary keys; 17, 33 and 100 (select: also 66000) elements one of which is arbitrary; by reference, const reference and value.",
                 "collections of 0..8 (select), 0..6 (where), 0..5 (order_by, group_by), 0..4 (chains) elements with arbitrary keys; 17 to 1025 (6 sizes; select: also 66000) elements one of which is arbitrary; by reference, const reference and value."],
  outside="longer collections; functions which take their argument by value where a const reference is required")
P("C21", threads=True, stress=20, bounds=["every interleaving (at atomic operations) of 2 threads locking twice, 3 threads locking once, 2 threads passing a message, 2 threads with nested locks; arbitrary data.",
                 "every interleaving (at atomic operations) of 2 threads locking three times, 3 threads locking twice, 2 threads passing a message, 2 threads with nested locks; arbitrary data."],
  outside="more threads or acquisitions; the atomics themselves are taken as sequentially consistent, and the ordering they give is decided by a happens-before analysis of the acquire/release orders used (weaker hardware reorderings of unrelated atomics are not explored); fairness")
P("C24", steps=100000000, bounds=["texts of 0..19 arbitrary characters; texts of 28 lengths from 0 to 8192 and of every length from 1010 to 1039 with arbitrary characters at their ends and where internal buffers end; twelve mixed arguments in and beyond registers, passed directly, through a list and through a partly used list; an error reported by the first, second or third formatter call.",
                 "texts of 0..39 arbitrary characters; texts of 28 lengths from 0 to 8192 and of every length from 960 to 1099 with arbitrary characters at their ends and where internal buffers end; twelve mixed arguments in and beyond registers, passed directly, through a list and through a partly used list; an error reported by the first, second or third formatter call."],
  outside="longer texts; conversions other than %s %c %d %i %u %x %f %%; the C library formatter itself is modelled")
P("C25", bounds=["chains of 1..3 exceptions of every combination of kinds (6 ways of nesting, 5 innermost kinds, with and without a missing cause) with arbitrary messages and indentations of 0..1 characters; chains of 1..2 with texts of 0..3 characters; uniform chains of up to 9 exceptions; chains of 17 and 34; messages and indentations of 11 lengths up to 5000.",
                 "chains of 1..4 exceptions of every combination of kinds (6 ways of nesting, 5 innermost kinds, with and without a missing cause) with arbitrary messages and indentations of 0..1 characters; chains of 1..2 with texts of 0..4 characters; uniform chains of up to 21 exceptions; chains of 40 and 70; messages and indentations of 11 lengths up to 5000."],
  outside="longer chains and texts; messages with line breaks; an exception type which is stacked although it is itself a std::nested_exception; type names are compared as the Itanium ABI demangler prints them for libstdc++")
P("C26", bounds=["every assertion form (always with and without message; debug: boolean, predicate, raw, shared and unique pointer, function, macros) with condition true or false, with and without message, any 32-bit line, 3 file names, messages of 0..3 arbitrary characters; debug and release builds, C++17 and C++20; messages of 14 lengths up to 5000; standard error a terminal or not.",
                 "every assertion form (always with and without message; debug: boolean, predicate, raw, shared and unique pointer, function, macros) with condition true or false, with and without message, any 32-bit line, 3 file names, messages of 0..7 arbitrary characters; debug and release builds, C++17 and C++20; messages of 14 lengths up to 5000; standard error a terminal or not."],
  outside="message functions which throw; a standard error which fails")
P("C27", bounds="every pair (order, combination, total order: every triple) of versions; printing of every version", outside="nothing for version_duplet; version_triplet is not implemented in the repository")
P("C28", configs=["r17", "r20"], solver_timeout=60000, bounds=["sign of every integer of 8..64 bits and every float and double; powers of every 32- and 64-bit unsigned integer, and of 8-bit unsigned, signed and floating-point integers whose powers are representable (8-bit: in int); angles k * s (any 8-bit integer k; s = 1, 1/4 and, for float, 3, 2^40) in float and double.",
                 "sign of every integer of 8..64 bits and every float and double; powers of every 32- and 64-bit unsigned integer, and of 8-bit unsigned, signed and floating-point integers whose powers are representable (8-bit: in int); angles k * s (any 8-bit integer k; s = 1, 1/4 and, for float, 3, 2^40) in float and double."],
  outside="powers and angles of other floating-point values; 16-bit unsigned powers (the product overflows int, which is undefined); integer angles")
P("C30", bounds="every clock reading from 0 to 2^63 ns (292 years) and every pair of such readings", outside="readings before the epoch of the clock",
  assumptions=["std::chrono clocks are replaced by one returning an arbitrary reading"])
P("C31", steps=100000000, bounds=["membership in sequences of 0..6 and maps of 0..3 arbitrary elements and in sequences of 17, 65 and 257 with one arbitrary element; flipping of maps of 0..3 arbitrary entries; iterators with 8/16/32/64-bit difference types moved by every n up to 700 / 2^18 / 2^36 / 2^62; containers of 0..6 elements.",
                 "membership in sequences of 0..10 and maps of 0..4 arbitrary elements and in sequences of 17, 65, 257 and 1025 with one arbitrary element; flipping of maps of 0..4 arbitrary entries; iterators with 8/16/32/64-bit difference types moved by every n up to 3000 / 2^20 / 2^36 / 2^62; containers of 0..10 elements."],
  outside="larger containers; unordered_map; input iterators")
P("C32", bounds=["buffers of 0..18 arbitrary bytes (spans, vectors) and arrays of 0..33; buffers of 17 lengths up to 4097 with arbitrary bytes at their ends and in the middle; concatenation of up to 10 pieces (characters, strings of 0..3 arbitrary characters, views, literals, user types, every integer of 16..64 bits); indentation of every depth and step with a product of up to 40 and of listed longer ones; every depth and step with a product above 2^23 (no result of another length).",
                 "buffers of 0..40 arbitrary bytes (spans, vectors) and arrays of 0..33; buffers of 17 lengths up to 4097 with arbitrary bytes at their ends and in the middle; concatenation of up to 10 pieces (characters, strings of 0..3 arbitrary characters, views, literals, user types, every integer of 16..64 bits); indentation of every depth and step with a product of up to 150 and of listed longer ones; every depth and step with a product above 2^23 (no result of another length)."],
  outside="indentations of 150 to 2^23 characters other than the listed ones, and of 2^63-1; floating-point texts (they are the C library's)")
P("C29", configs={"quick": ["r17"], "thorough": ["r17", "r20"]}, bounds=["texts of 0..4 arbitrary characters in every format and type (4-character texts with an exponent: a selection of exponents), through every form and through the string parser; about 100 number patterns of up to 38 digits with 1 to 4 arbitrary digits: around both limits of each type, denormals, halfway cases, more than 19 digits, exponents of any size; infinity and not-a-number words in any mix of cases with up to 2 arbitrary characters; 5 heads with tails of up to 769 zeros and an arbitrary digit, a digit with up to 1200 zeros around it.",
                 "texts of 0..5 arbitrary characters in every format and type, through every form and through the string parser; about 100 number patterns of up to 38 digits with 1 to 5 arbitrary digits: around both limits of each type, denormals, halfway cases, more than 19 digits, exponents of any size; infinity and not-a-number words in any mix of cases with up to 2 arbitrary characters; 5 heads with tails of up to 1200 zeros and an arbitrary digit, a digit with up to 1200 zeros around it."],
  outside="other texts of more characters; the hexadecimal format (the bundled parser has none); rounding modes other than to nearest")
P("C33", bounds=["every single operation of 8 kinds (plain and debug-only logging by function and by concatenation, empty functions, debug-only procedures) with texts of 0..6 arbitrary characters, every 2 operations with texts of 0..1; texts of 20 lengths up to 70000; 300 log calls in a row; debug and release builds.",
                 "every single operation of 8 kinds with texts of 0..12 arbitrary characters, every 3 operations with texts of 0..1; texts of 20 lengths up to 70000; 2000 log calls in a row; debug and release builds."],
  outside="concurrent logging; logging from within a print function; a standard output which fails")
P("C34", bounds=["any terminal state of the three standard streams, every history of 4 redirections and queries.",
                 "any terminal state of the three standard streams, every history of 6 redirections and queries."],
  outside="closed standard streams; the C library's isatty() itself (a stand-in with an arbitrary answer per descriptor)")
P("C35", bounds=["each of the first 10 allocations of an operation failing (no operation within the bounds makes more than that in its own code, or the rest is not explored); texts of up to 8 base64 characters, 5 Unicode characters, 4 characters or words to split, 24 bytes, formatted texts of 6 lengths up to 3001, maps and collections of 0..3 items, 0..3 connected callbacks, forests of up to 3 nodes (vector and list).",
                 "each of the first 16 allocations of an operation failing; texts of up to 20 base64 characters, 11 Unicode characters, 6 characters or words to split, 24 bytes, formatted texts of 6 lengths up to 3001, maps and collections of 0..3 items, 0..3 connected callbacks, forests of up to 4 nodes (vector and list)."],
  outside="several failing allocations in one operation; operations built on string streams (the standard streams swallow the exception and truncate: cat, join, encoding of UTF-32 strings, logging, exception texts)")
for _p in ("C04", "C05", "C06", "C08", "C09", "C10", "C12", "C13", "C15", "C16", "C17", "C23", "C24", "C31"):
    _b = PROPS[_p]["bounds"]
    _x = lambda b: b.rstrip(".") + "; inputs of about 2^16 elements, uniform but for a few arbitrary ones."
    PROPS[_p]["bounds"] = [_x(b) for b in _b] if isinstance(_b, list) else _x(_b)
