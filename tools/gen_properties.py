#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Integers and floats serialize to an exact byte layout and back",
 "Serializing any unsigned 16/32/64-bit integer or any float, little- or big-endian, writes exactly the value's bytes in the stated order into the output buffer, touches no byte outside it and returns the address right after the written bytes. Deserializing any sequence of bytes yields the value whose layout in that byte order those bytes are, so that serialize and deserialize are inverse to each other for every value, with floats preserved bit for bit.",
 ["inputs"], "every value of each width, every byte sequence of each width, both byte orders",
 "Unit tests check a handful of constants and are not even compiled by the baseline; only all-values reasoning covers every bit position and sign bit.",
 ["src/utki/utility.hpp"], [("serialize_le/serialize_be/deserialize_le/deserialize_be and fixed-width/float wrappers", "src/utki/utility.hpp")],
 ["utki::serialize*le/be", "utki::deserialize*le/be", "utki::serialize_float_*", "utki::deserialize_float_*"])

prop("C02", "Deserializer reads are bounds-checked, in order, and fail atomically",
 "For any buffer and any sequence of deserializer operations (integers and floats of either byte order, byte spans, strings, skip), each operation that fits in the remaining bytes returns exactly the value encoded by the next bytes of the buffer (spans and strings alias the buffer in place) and advances by exactly its length. An operation needing more bytes than remain throws std::invalid_argument, leaves the deserializer's position unchanged and later operations behave as if it had not been attempted; no operation ever reads outside the buffer.",
 ["inputs", "histories"], "every buffer content and length, every requested length up to SIZE_MAX, every sequence of operations",
 "Tests read one fixed buffer in one fixed order; they never reach failing reads mixed with later successful ones nor huge requested lengths.",
 ["src/utki/deserializer.cpp", "src/utki/deserializer.hpp", "src/utki/span.hpp"], [("deserializer::read_*/skip size guards", "src/utki/deserializer.cpp"), ("span::subspan", "src/utki/span.hpp")],
 ["utki::deserializer"])

prop("C03", "Base64 decoding inverts standard encoding and stays inside its input",
 "For every byte string, decoding its standard base64 encoding (alphabet A-Z a-z 0-9 + /), with or without the trailing '=' padding, returns exactly that byte string. For any other character sequence, malformed or not, decoding either returns a result or throws std::invalid_argument and never reads memory outside the input or its own tables.",
 ["inputs"], "every byte string / every character sequence (all 256 byte values, all lengths)",
 "Tests decode a few hand-written well-formed strings; malformed lengths, high-bit characters and all 3-byte groups are out of their reach.",
 ["src/utki/base64.cpp"], [("decode_table, base64_decode_quad, padding/tail handling", "src/utki/base64.cpp")],
 ["utki::base64_decode"])

prop("C04", "UTF-8 encoding is exact and UTF-32 text survives the round trip",
 "Encoding any code value up to 0x7fffffff yields its shortest UTF-8 sequence (one to six bytes, standard bit layout) followed by a zero terminator, and any larger value yields an empty sequence; encoding a string of non-zero code values yields the concatenation of their sequences. Decoding the UTF-8 encoding of any string of non-zero code values, through any of the provided entry points (string, string view, byte span, zero-terminated pointer, iterator), returns exactly the original code values.",
 ["inputs"], "every 32-bit code value, every string of code values",
 "Tests use a few literals; boundaries between sequence lengths and the 5/6-byte forms are not sampled.",
 ["src/utki/unicode.cpp", "src/utki/unicode.hpp"], [("to_utf8", "src/utki/unicode.cpp"), ("utf8_iterator::operator++", "src/utki/unicode.cpp"), ("to_utf32", "src/utki/unicode.cpp")],
 ["utki::to_utf8", "utki::to_utf32", "utki::utf8_iterator"])

prop("C05", "UTF-8 decoding of arbitrary bytes is memory-safe and terminates",
 "Iterating or converting any byte sequence, valid UTF-8 or not, including sequences truncated in the middle of a character, reads only bytes of the given span (or, for a zero-terminated pointer, bytes up to and including the terminator), has no undefined behaviour, and reaches the end after at most as many characters as there are bytes. Bytes below 0x80 outside of any multi-byte sequence are delivered unchanged and in order. A sequence cut off by the end of the text ends it without delivering a character for it.",
 ["inputs"], "every byte sequence of every length, given as a span or zero-terminated",
 "Tests only decode well-formed text; the untrusted-input cases (truncated tails, 0xfe/0xff, stray continuation bytes) are never exercised.",
 ["src/utki/unicode.cpp", "src/utki/unicode.hpp"], [("utf8_iterator::operator++ end checks", "src/utki/unicode.cpp")],
 ["utki::utf8_iterator", "utki::to_utf32"])

prop("C06", "String parser consumes exactly what each operation documents",
 "For any text and any sequence of string-parser operations (skip whitespace, skip whitespace and at most one comma, skip through a character or one of a set, read word, read word or characters up to a stop character, read or peek characters), each operation returns exactly the characters its documentation describes and leaves the remaining view as exactly the unconsumed rest of the original text. Reading or peeking past the end throws std::invalid_argument without consuming anything, and no operation reads outside the text.",
 ["inputs", "histories"], "every text, every argument character, every sequence of operations",
 "Tests parse a few fixed strings; stop characters at position 0, at the end, absent, or equal to whitespace are not combined with operation sequences.",
 ["src/utki/string.cpp", "src/utki/string.hpp"], [("string_parser members", "src/utki/string.cpp")],
 ["utki::string_parser"])

prop("C07", "Integers survive conversion to text and back in every base",
 "Converting an integer to a string gives its canonical digits in the requested base (with the 0b, 0 or 0x prefix for unsigned values in binary, octal, hexadecimal), and reading that string back as the same type (unsigned: any base; signed: decimal) returns the same value and consumes the whole string. Reading a number from any text skips leading whitespace, consumes exactly the longest number prefix, returns zero when the digits do not fit the type, and throws std::invalid_argument when no number is there.",
 ["inputs"], "every value of every integer width, every base; every text",
 "Tests check a few constants per base; limits of each type, overflow, lone prefixes such as 0x and 0b, and all texts are not sampled.",
 ["src/utki/string.hpp"], [("utki::to_string", "src/utki/string.hpp"), ("string_parser::read_number", "src/utki/string.hpp")],
 ["utki::to_string", "utki::string_parser::read_number"])

prop("C08", "Splitting and joining strings lose and invent nothing",
 "Splitting a string at a delimiter yields one more piece than there are delimiters, no piece contains the delimiter, and joining the pieces with that delimiter gives back the original string. Splitting into words yields exactly the maximal runs of non-whitespace characters, in order.",
 ["inputs"], "every string and delimiter (including empty strings, delimiters at the ends, adjacent delimiters); narrow and wide characters",
 "Tests cover a few literals; empty pieces, edge positions and all character values need all-inputs reasoning.",
 ["src/utki/string.cpp", "src/utki/string.hpp"], [("split (delimiter)", "src/utki/string.hpp"), ("split (words)", "src/utki/string.cpp"), ("join", "src/utki/string.hpp")],
 ["utki::split", "utki::join"])

prop("C09", "Trimming and prefix/suffix tests agree with their definitions",
 "Trimming the front, the back or both sides of any string returns the view of it, inside the original storage, without exactly the leading and/or trailing whitespace. A string starts (ends) with a given string exactly when its first (last) characters of that length equal it, in both the C++17 and the C++20 build.",
 ["inputs", "configurations"], "every pair of strings (including repeated and overlapping occurrences), every character value, C++17 and C++20 builds",
 "Tests check a few literals in one build; repeated occurrences of the suffix and all-whitespace strings are not sampled.",
 ["src/utki/string.hpp"], [("trim_front/trim_back/trim", "src/utki/string.hpp"), ("starts_with/ends_with", "src/utki/string.hpp")],
 ["utki::trim*", "utki::starts_with", "utki::ends_with"])

prop("C10", "Word wrap respects the width and keeps every word",
 "For any text and any width above zero, every produced line has at most that many characters and contains no newline; the non-space, non-newline characters of all lines in order are exactly those of the text, every newline of the text ends a line, and in a paragraph without leading or repeated spaces a word that fits into the width is not broken across lines. Width zero returns the text as one line; the function never reads outside the text.",
 ["inputs"], "every text over spaces, newlines and other characters, every width, C++17 and C++20 builds",
 "Tests wrap six literals; the interplay of width, runs of spaces, long words and newlines is combinatorial.",
 ["src/utki/string.cpp"], [("word_wrap", "src/utki/string.cpp")],
 ["utki::word_wrap"])

prop("C11", "Flag sets behave as sets over the whole enumeration",
 "Setting, clearing, inverting, assigning, combining (and, or, xor, not) and comparing flag sets changes and reports exactly the flags that the same operation on mathematical sets of the enumeration's items would, for enumerations of any size including more than one machine word. A set reports being fully set or fully clear exactly when all or none of its flags are set, size is the number of items, and printing lists every flag's value.",
 ["inputs", "histories"], "every pair of flag sets, every flag, every operation, enumeration sizes on both sides of the machine word size",
 "Tests use one small enumeration and a few operations; full-set detection after inversion and word-boundary items are not sampled.",
 ["src/utki/flags.hpp"], [("flags", "src/utki/flags.hpp")],
 ["utki::flags", "utki::make_flags", "operator|(enum, enum)"])

prop("C12", "Enumeration ranges and enumeration-indexed arrays cover every item once",
 "Iterating an enumeration visits every item from the first to the last exactly once, in order, and reports the item count as its size. An enumeration-indexed array has one element per item, indexing by an item accesses the element at that item's position only, and zipping it with its enumeration pairs each element (by reference) with its own item.",
 ["inputs", "histories"], "every item, every sequence of writes, enumerations of several sizes and underlying types",
 "Tests use one enumeration and fixed writes.",
 ["src/utki/enum_iterable.hpp", "src/utki/enum_array.hpp", "src/utki/views.hpp"], [("enum_iterable::iterator", "src/utki/enum_iterable.hpp"), ("enum_array::operator[]/zip_with_enum", "src/utki/enum_array.hpp")],
 ["utki::enum_iterable", "utki::enum_array"])

prop("C13", "Spans denote exactly the given memory and compare by content",
 "A span made from any supported source (pointer and size, array, vector, string, string view, C string, other span, initializer list) refers to exactly the source's elements in place; element access, front, back, forward and reverse iteration, byte size, subspans and conversions to bytes, characters, strings and vectors all agree with that sequence. Checked access throws std::out_of_range exactly for indices not below the size; the containment test is true exactly for addresses of the span's own elements; deep comparisons equal element-wise equality and lexicographic order.",
 ["inputs"], "every content, size, index, offset/count and address, several element types",
 "Tests use fixed arrays; empty spans, equal prefixes of different length and addresses just outside are not sampled.",
 ["src/utki/span.hpp"], [("span", "src/utki/span.hpp"), ("overlaps, deep_* comparisons, make_span, make_vector, to_uint8_t/to_char", "src/utki/span.hpp")],
 ["utki::span", "utki::make_span", "utki::overlaps", "utki::deep_*"])

prop("C14", "Compile-time-capable sort returns the sorted permutation",
 "Sorting any range with any strict weak ordering leaves a permutation of the original elements in which no element is ordered before its predecessor, touches nothing outside the range, and terminates, in both the C++17 and the C++20 build.",
 ["inputs", "configurations"], "every array content including duplicates, every length, custom comparators, C++17 and C++20 builds",
 "Tests sort two fixed arrays at compile time.",
 ["src/utki/sort.hpp"], [("sort, sort_internal::quick_sort/partition", "src/utki/sort.hpp")],
 ["utki::sort"])

prop("C15", "Tree traversal visits every node once in pre-order, both ways",
 "For a tree of any shape, forward iteration visits every node exactly once in pre-order, reverse iteration visits the same nodes in exactly the opposite order, stepping forward then back returns to the same node, and iterator comparisons agree with the visiting order. For every node its index leads back to that node (by iterator creation and by subscript), depth and per-level access give its ancestors, last-child queries are right, an index is valid exactly when such a node exists, and creating an iterator from an index outside the tree throws std::out_of_range.",
 ["inputs", "histories"], "every tree shape, every node, every index list, const and non-const traversal",
 "Tests walk two fixed trees; degenerate shapes (chains, empty lists, last-child chains) and all indices are not sampled.",
 ["src/utki/tree.hpp"], [("traversal::iterator_internal ++/--/index/at_level/is_last_child", "src/utki/tree.hpp"), ("make_iterator/is_valid/operator[]", "src/utki/tree.hpp")],
 ["utki::tree", "utki::traversal"])

prop("C16", "Tree insertion and removal change exactly the addressed place",
 "Inserting a node before or after a position adds exactly that subtree at exactly that place among its siblings, leaves every other node unchanged and returns an iterator to the new node. Erasing a node removes exactly that node with its subtree, leaves all others unchanged, and returns an iterator to the node that followed it in traversal order (or the end); copies and equality of trees compare values and shapes recursively.",
 ["inputs", "histories"], "every tree shape, every position, every sequence of insertions and removals",
 "Tests edit one fixed tree at a few places; erasing last children that unwind several levels and insertion at ends are not combined.",
 ["src/utki/tree.hpp"], [("traversal::insert/insert_after/erase", "src/utki/tree.hpp"), ("tree::operator==", "src/utki/tree.hpp")],
 ["utki::traversal::insert/insert_after/erase", "utki::tree::operator=="])

prop("C17", "Signals deliver each emission to every connected callback",
 "After any history of connecting and disconnecting callbacks, emitting a signal calls each currently connected callback exactly once, in connection order, and no other, and every callback receives the emitted argument values (for arguments passed by value, each callback gets its own equal copy). The reported number of callbacks and emptiness always match the connections.",
 ["histories", "inputs"], "every sequence of connect, disconnect and emit, every argument value, by-value and by-reference arguments",
 "Tests connect a few callbacks once and emit with plain integers.",
 ["src/utki/signal.hpp"], [("signal::connect/disconnect/emit", "src/utki/signal.hpp")],
 ["utki::signal"])

prop("C18", "Scope-exit actions run exactly once unless released",
 "The action of a scope-exit object runs exactly once, when the object is destroyed, whether the scope is left normally or by an exception, and an exception thrown by the action never leaves the destructor. After release the action does not run and the caller receives that very action; an empty action is harmless.",
 ["histories", "fault_sequences"], "every combination of nesting, early exit, throwing scope, throwing action and release",
 "Tests cover the normal exit and one release only.",
 ["src/utki/utility.hpp"], [("scope_exit", "src/utki/utility.hpp")],
 ["utki::scope_exit"])

prop("C19", "A singleton never has two instances",
 "At any point of any history at most one instance of a singleton type exists: creating a second one throws std::logic_error and leaves the first usable, and after destruction a new one can be created. The created query tells whether an instance exists and the accessor returns that very instance, for both the plain and the intrusive form, independently for each singleton type.",
 ["histories", "fault_sequences"], "every sequence of creations (including failing ones and ones whose constructor throws), destructions and queries over several singleton types",
 "Tests create one singleton once; failed second creation followed by use and re-creation is not covered.",
 ["src/utki/singleton.hpp"], [("intrusive_singleton constructor/destructor/is_created/inst", "src/utki/singleton.hpp")],
 ["utki::singleton", "utki::intrusive_singleton"])

prop("C20", "Never-null references own their object exactly as documented",
 "Through any history of creating, copying, moving, assigning, converting and dropping shared and unique references, the object is alive while at least one owner refers to it and is destroyed exactly once when the last one goes, and every reference yields the very object it was made for. Conversions to base or const types and to shared, weak and unique pointers keep identity and ownership; the checked cast returns the same object or throws std::bad_cast; comparisons compare the referred objects; a shared or weak pointer obtained from an object itself shares ownership with its existing owners.",
 ["histories", "inputs"], "every sequence of operations over several references and objects, single and multiple inheritance",
 "Tests run a few fixed scenarios and never count destructions over operation sequences.",
 ["src/utki/shared_ref.hpp", "src/utki/unique_ref.hpp", "src/utki/shared.hpp"], [("shared_ref", "src/utki/shared_ref.hpp"), ("unique_ref", "src/utki/unique_ref.hpp"), ("make_shared_from/make_weak_from/make_weak", "src/utki/shared.hpp")],
 ["utki::shared_ref", "utki::unique_ref", "utki::shared", "utki::make_shared_from", "utki::make_weak", "utki::dynamic_reference_cast"])

prop("C21", "Spin lock gives mutual exclusion and ordering between threads",
 "In every interleaving of threads that lock, access shared data and unlock, at most one thread is between lock and unlock at a time, and everything written before an unlock is visible, free of data races, to the thread that next acquires the lock. A lock request on a free lock succeeds, and unlocking lets a waiting thread proceed.",
 ["schedules"], "every interleaving of the threads' memory operations, with the memory orders the code requests",
 "There is no test for the lock at all, and a test samples schedules of one hardware memory model.",
 ["src/utki/spin_lock.hpp"], [("spin_lock::lock/unlock with acquire/release", "src/utki/spin_lock.hpp")],
 ["utki::spin_lock"])

prop("C22", "LINQ-style queries compute their relational meaning",
 "For any collection, select maps every element in order (passing the position when asked), where keeps exactly the elements satisfying the predicate in order, order-by yields a permutation sorted by the key, and group-by partitions the elements by key with groups in key order and elements in original order; queries can be chained. Querying a collection given by reference leaves it unchanged.",
 ["inputs"], "every collection content and size, arbitrary predicates and keys, collections given by reference and by value",
 "Tests run fixed five-element lists.",
 ["src/utki/linq.hpp"], [("linq_collection_aggregator::select/where/order_by/group_by/get", "src/utki/linq.hpp")],
 ["utki::linq"])

prop("C23", "Views visit exactly the right elements of the underlying collections",
 "Zipping collections visits exactly as many tuples as the shortest collection has elements, the k-th tuple referring in place to the k-th element of each; the reverse view visits all elements backwards; the skip-front view visits all but the first N in order. No view reads or writes any other element.",
 ["inputs"], "every content and every combination of collection sizes, const and non-const, several container types",
 "Tests zip collections of fixed sizes.",
 ["src/utki/views.hpp"], [("zip_view, reverse_view, skip_front_collection_wrapper", "src/utki/views.hpp")],
 ["utki::views::zip", "utki::views::reverse", "utki::skip_front"])

prop("C24", "printf-style formatting returns the whole text at any length",
 "Formatting with a printf-style format returns exactly the text the format and arguments denote, complete and without a terminator inside, whatever its length (shorter, equal or longer than any internal buffer), with every argument used in its place, also when the caller passes its own argument list. If the formatter reports an error, std::logic_error is thrown; nothing is written outside the buffers used.",
 ["inputs", "fault_sequences"], "every result length around internal buffer sizes, every argument value, formatter failure",
 "Tests format short strings and one long one; exact boundary lengths and the retry with re-used arguments are not pinned.",
 ["src/utki/string.cpp"], [("make_string_va_list/make_string", "src/utki/string.cpp")],
 ["utki::make_string", "utki::make_string_va_list"])

prop("C25", "Exception descriptions list the whole chain of causes",
 "For any chain of nested exceptions, standard or stacked, with standard or arbitrary thrown types, the produced description has one line per exception from the outermost to the innermost, each with the given indentation, the type name and (for standard exceptions) its message (taken to have no line break), and nothing else; the own text of a stacked exception (its to_string and what) is those lines after one line announcing an exception stack. Asking for the current exception's description when none is being handled throws std::logic_error.",
 ["inputs", "fault_sequences"], "every chain length and mix of exception kinds, every message",
 "Tests build chains of fixed shape.",
 ["src/utki/exception.cpp", "src/utki/exception.hpp"], [("to_string/current_exception_to_string", "src/utki/exception.cpp"), ("stacked_exception, throw_with_nested", "src/utki/exception.hpp")],
 ["utki::to_string(std::exception)", "utki::current_exception_to_string", "utki::throw_with_nested"])

prop("C26", "Assertions abort exactly when their condition is false",
 "An always-assertion with a true condition has no effect, does not evaluate its message and returns; with a false condition it writes the source location and the message (if any) to standard error and aborts the program, never returning. Debug-only assertions do the same in a debug build for every supported condition kind (boolean, predicate, raw, shared and unique pointer, function) and do nothing in a release build.",
 ["inputs", "configurations"], "every condition value of every supported kind, with and without message, debug and release builds",
 "Tests only exercise the passing side, and in the release build assertions are compiled out.",
 ["src/utki/debug.cpp", "src/utki/debug.hpp"], [("assert_always", "src/utki/debug.cpp"), ("assert overloads, ASSERT macros", "src/utki/debug.hpp")],
 ["utki::assert_always", "utki::assert", "ASSERT"])

prop("C27", "Version comparison is the total order of (major, minor)",
 "Comparing two versions orders them first by major and then by minor number, greater-or-equal and less are exact opposites, and combining a version into one number preserves that order and loses nothing. Printing gives major and minor in decimal separated by a dot.",
 ["inputs"], "every pair of versions",
 "Tests compare a few pairs.",
 ["src/utki/version.hpp"], [("version_duplet", "src/utki/version.hpp")],
 ["utki::version_duplet"])

prop("C28", "Numeric helpers match their mathematical definitions",
 "The sign helper returns minus one exactly for negative numbers and one otherwise; power helpers return the exact n-fold product in the argument's arithmetic (modulo 2^n for 8-, 32- and 64-bit unsigned integers; for other types whenever the product is representable). Degree/radian conversions of floating-point values are the linear maps by pi/180 and 180/pi up to rounding of the argument type.",
 ["inputs"], "every argument value of integer types; floating-point values within stated ranges",
 "Tests check a few constants.",
 ["src/utki/math.hpp"], [("sign, pow2..pow6, deg_to_rad, rad_to_deg", "src/utki/math.hpp")],
 ["utki::sign", "utki::pow2..pow6", "utki::deg_to_rad", "utki::rad_to_deg"])

prop("C29", "Floating-point text parsing yields the nearest value and exact extent",
 "Parsing a decimal floating-point number from any text yields the correctly rounded value of the longest prefix that is a number in the requested format, reports the address right after it, and never reads outside the text. When no number is there or the value is out of range (it rounds to infinity or, not being zero, to zero) the corresponding error is reported; an invalid parse leaves the output value untouched, and the long double form agrees with the double form.",
 ["inputs"], "every text up to the bound, every format, float, double and long double",
 "Tests parse a few literals.",
 ["src/utki/string.cpp", "src/utki/string.hpp"], [("utki::from_chars", "src/utki/string.cpp"), ("read_number (floating point)", "src/utki/string.hpp")],
 ["utki::from_chars", "utki::string_parser::read_number<float/double>"])

prop("C30", "Millisecond ticks follow the system clock modulo 2^32",
 "The tick count is the clock's time in whole milliseconds modulo 2^32 for every non-negative clock reading, so that unsigned differences of two readings equal the elapsed milliseconds across wrap-around.",
 ["inputs", "histories"], "every clock reading and every pair of readings",
 "There is no test; wrap-around happens after 49 days.",
 ["src/utki/time.cpp"], [("get_ticks_ms", "src/utki/time.cpp")],
 ["utki::get_ticks_ms"])

prop("C31", "Container helpers agree with their definitions",
 "Membership is true exactly when some element (for maps: some key) equals the value; flipping a pair or map swaps keys and values and, for maps with distinct values, flipping twice gives back the original. Advancing or rewinding an iterator by n moves it by exactly n steps for every n, also when n exceeds what one step of the iterator's difference type can express, and the end pointer of a contiguous sequence is its data pointer plus its size.",
 ["inputs"], "every container content, every value, every step count including ones above the difference type's maximum",
 "Tests use small fixed containers and never exceed the difference type.",
 ["src/utki/utility.hpp"], [("contains, flip_pair, flip_map, next, prev, end_pointer", "src/utki/utility.hpp")],
 ["utki::contains", "utki::flip_map", "utki::next", "utki::prev", "utki::end_pointer"])

prop("C32", "Strings made from buffers, values and indentation are exact",
 "Making a string or string view from a character or byte buffer of any supported kind gives exactly the buffer's bytes, zero bytes included. Concatenation yields the streamed texts of its arguments in order; indentation of a given depth is that many tabs, or depth times step spaces, and a result of a different length is never returned, however large the product.",
 ["inputs"], "every buffer content and length, every argument value, every depth and step",
 "Tests use short literals; zero bytes and products beyond 32 bits are not sampled.",
 ["src/utki/string.hpp", "src/utki/string.cpp", "src/utki/span.hpp"], [("make_string/make_string_view overloads, cat", "src/utki/string.hpp"), ("make_indentation", "src/utki/string.cpp")],
 ["utki::make_string", "utki::make_string_view", "utki::cat", "utki::make_indentation"])

prop("C33", "Log messages come out once, whole and flushed; debug code only in debug",
 "Logging with a print function calls it exactly once and writes exactly what it prints to the standard output, complete and flushed when the call returns (an empty function logs nothing, an exception of the function is passed on); concatenating logging prints each of its arguments exactly once, in order, the same way. The debug-only forms do exactly the same in a debug build and in other builds call nothing, print nothing and evaluate no argument's printing; a debug-only procedure is called exactly once in a debug build and never otherwise.",
 ["inputs", "histories"], "every text and length, every argument, every sequence of logging operations, debug and release builds",
 "There is no test for logging: the output of the tests is not looked at.",
 ["src/utki/log.hpp", "src/utki/log.cpp", "src/utki/debug.hpp"], [("log, logcat", "src/utki/log.hpp"), ("log", "src/utki/log.cpp"), ("log_debug, logcat_debug, run_debug", "src/utki/debug.hpp")],
 ["utki::log", "utki::logcat", "utki::log_debug", "utki::logcat_debug", "utki::run_debug"])

prop("C34", "Terminal queries tell about exactly their own standard stream",
 "Each of the terminal queries for standard input, standard output and standard error is true exactly when, at the time of the call, that very stream is connected to a terminal, whatever the other two are and whatever was asked before.",
 ["inputs", "histories"], "every combination of terminal and non-terminal streams, every history of redirections and queries",
 "Tests run with one fixed set of streams and do not check the answer.",
 ["src/utki/utility.hpp", "src/utki/utility.cpp"], [("is_terminal_cin, is_terminal_cout, is_terminal_cerr", "src/utki/utility.cpp")],
 ["utki::is_terminal_cin", "utki::is_terminal_cout", "utki::is_terminal_cerr"])

prop("C35", "Running out of memory at any point loses nothing and changes nothing",
 "When any one allocation fails during decoding, UTF-32 conversion, splitting, wrapping, printf-style formatting, copying of spans and strings, map flipping, LINQ-style queries, connecting to or emitting a signal, tree traversal and modification, or the making of references, singletons and scope guards, the operation ends with std::bad_alloc and leaks nothing. The objects it works on are then as they were (a signal's callbacks, a forest's nodes, a queried collection, the singleton's absence) and a repetition with memory available gives the right result; an operation which completes is right as ever.",
 ["inputs", "faults", "histories"], "every allocation of the operation as the failing one, every content and size",
 "Unit tests never see an allocation fail.",
 ["src/utki/base64.cpp", "src/utki/unicode.cpp", "src/utki/string.cpp", "src/utki/string.hpp", "src/utki/linq.hpp", "src/utki/signal.hpp", "src/utki/tree.hpp", "src/utki/shared_ref.hpp", "src/utki/unique_ref.hpp", "src/utki/singleton.hpp", "src/utki/utility.hpp"], [("signal::connect", "src/utki/signal.hpp"), ("traversal::insert, insert_after, erase", "src/utki/tree.hpp"), ("make_string_va_list, split, word_wrap", "src/utki/string.cpp"), ("linq_collection_aggregator", "src/utki/linq.hpp")],
 ["utki::signal", "utki::tree", "utki::linq", "utki::split", "utki::word_wrap", "utki::base64_decode", "utki::make_shared", "utki::make_unique", "utki::singleton", "utki::scope_exit"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
