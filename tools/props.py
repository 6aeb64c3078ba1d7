#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl.  Run: python3 tools/props.py"""
import json, os
S = "src/utki/"
P = []
NOTEST = ("The sandbox's two tests only print one formatted string and poke one singleton; the repository's own unit "
          "suite (not built here) samples ")

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": NOTEST + why, "anchors": a})

prop("C01", "UTF-8 encoding is canonical and decoding inverts it, for every code point",
     "For every code point from 1 to 0x7fffffff, converting it to UTF-8 gives the unique shortest sequence (1 to 6 bytes, followed by a terminating zero), and converting a string of code points gives the concatenation of those sequences. "
     "Decoding that text gives back exactly the original code points, whichever way the text is supplied (string, view, char or byte span, zero-terminated pointer) and whether it is iterated or converted at once.",
     ["inputs"], "every code point 1..2^31-1 and every string of them",
     "a dozen code points; it cannot cover 2^31 code points, the boundaries between sequence lengths, or strings mixing them.",
     ["unicode.cpp", "unicode.hpp"],
     [("range chain choosing the number of bytes and the shift/mask writes", "unicode.cpp: to_utf8(char32_t)"), ("lead-byte driven accumulation loop", "unicode.cpp: utf8_iterator::operator++")],
     ["return values of to_utf8 / to_utf32", "utf8_iterator::character() after each ++"])

prop("C02", "UTF-8 decoding of arbitrary bytes is total and stays inside the text",
     "For every byte sequence, iterating over it or converting it from UTF-8 terminates, never reads a byte outside the given span (or beyond the terminating zero of a zero-terminated string), and yields exactly the characters of its longest well-formed prefix (up to a zero character) before anything else. "
     "A sequence cut short by the end of the text ends the iteration instead of producing a character.",
     ["inputs"], "every byte sequence, well-formed or not, of every length",
     "well-formed text and two truncated samples; malformed and truncated inputs are an open-ended set and over-reads are invisible without exact-size buffers.",
     ["unicode.cpp", "unicode.hpp"],
     [("end-of-buffer checks before each continuation byte", "unicode.cpp: utf8_iterator::operator++"), ("zero character means end", "unicode.hpp: utf8_iterator::is_end")],
     ["characters yielded before is_end()", "memory accesses relative to the buffer"])

prop("C03", "base64 decoding inverts base64 encoding and is safe on any text",
     "For every byte sequence, decoding its standard base64 text, fully padded or without padding, returns exactly that sequence. "
     "For any other text, decoding never reads outside the text and either reports an invalid argument or returns at most three bytes per four characters; text of a length that no encoding has, or with incomplete padding, is reported as an invalid argument.",
     ["inputs"], "every byte sequence and every character string",
     "seventeen ASCII strings, all well-formed; lengths, alphabet positions, non-ASCII characters and malformed padding are not covered.",
     ["base64.cpp"],
     [("decode table and quad assembly", "base64.cpp: base64_decode_quad"), ("padding and tail handling", "base64.cpp: base64_decode")],
     ["returned bytes or exception of base64_decode"])

prop("C04", "Byte serialization has the documented order, exact extent and is lossless",
     "Serializing any unsigned integer (8, 16, 32 or 64 bit) or float little-endian writes its bytes least significant first, and big-endian most significant first; it writes exactly the size of the value, returns the position right after it, and touches nothing else. "
     "Deserializing from any position gives back the value bit for bit.",
     ["inputs"], "every value of every width, at every buffer alignment",
     "a few constants per width; 2^64 values, unaligned positions and bytes beyond the value are not observed.",
     ["utility.hpp"],
     [("per-byte shift loops", "utility.hpp: serialize_le/serialize_be/deserialize_le/deserialize_be"), ("bit reinterpretation of float", "utility.hpp: serialize_float_*/deserialize_float_*")],
     ["buffer contents around the written bytes", "returned pointers and values"])

prop("C05", "A deserializer is an exact, bounded, all-or-nothing cursor",
     "For every buffer and every sequence of reads and skips, each successful operation consumes exactly the requested bytes from the front of what is left and returns exactly them (as integer or float of the stated byte order, string or span aliasing the buffer), and the reported remaining size shrinks by that amount. "
     "An operation asking for more than is left reports an invalid argument, consumes nothing and leaves the cursor usable.",
     ["inputs", "histories"], "every buffer and every history of operations, failing ones included",
     "one fixed read sequence per type; interleavings of kinds, failed reads in mid-history and huge lengths are not covered.",
     ["deserializer.cpp", "deserializer.hpp"],
     [("size check before consuming", "deserializer.cpp: each read_*/skip"), ("subspan advance", "deserializer.cpp: each read_*/skip")],
     ["return value, exception, size() and empty() after each call"],
     [("data", "unread remainder of the buffer", "deserializer.hpp: deserializer")])

prop("C06", "Splitting and joining strings are exact inverses and lose nothing",
     "For every string and delimiter, splitting yields one piece more than there are delimiters, no piece contains the delimiter, and joining the pieces with it gives back the string; joining any list of strings places exactly one delimiter between neighbours. "
     "Splitting into words yields, in order, exactly the maximal runs of non-whitespace characters, never an empty word; concatenating values gives the texts of the values in order.",
     ["inputs"], "every string (any characters, empty pieces, delimiters at the ends) and every list of strings",
     "a few sentences; empty strings, runs of delimiters and unusual characters form an unbounded set.",
     ["string.hpp", "string.cpp"],
     [("find/substr loop", "string.hpp: split(view, delimiter)"), ("buffered word accumulation", "string.cpp: split(view)"), ("skip-first streaming", "string.hpp: join")],
     ["returned lists and strings"])

prop("C07", "Word wrapping respects the width and drops nothing but blanks",
     "For every text and every width above zero, no returned line is longer than the width, each line is a contiguous piece of the text, the lines come in text order, and the only characters between consecutive lines, before the first or after the last are spaces or newlines; every newline ends a line and no line contains one. "
     "Lines are filled greedily: a line that does not end at a newline or the end of the text either has the full width or ends at a space such that the text up to the end of the next word would reach the width, and only an empty line of the text gives an empty line. Width zero returns the text as a single line.",
     ["inputs"], "every text and every width",
     "five texts with one width each; the interplay of word lengths, runs of spaces, newlines and width is combinatorial.",
     ["string.cpp"],
     [("line/span state machine", "string.cpp: word_wrap")],
     ["returned lines"],
     [("line_begin, span_begin, word_ended", "current line start, current run of blanks or non-blanks, whether the line already holds a finished word", "string.cpp: word_wrap")])

prop("C08", "The string parser consumes exactly what each operation says",
     "For every text and every sequence of parser operations (skipping whitespace, whitespace and one comma, until a character or one of several; reading or peeking characters; reading words or until a character), each operation consumes exactly the documented characters from the front of the unread text, returns exactly the documented part of it, and leaves the rest as the unread text. "
     "Reading or peeking a character beyond the end reports an invalid argument and changes nothing; whitespace is exactly space, newline, tab, carriage return, vertical tab and form feed.",
     ["inputs", "histories"], "every text and every history of operations",
     "one or two texts per operation; other characters, end-of-text cases and operation sequences are unbounded.",
     ["string.cpp", "string.hpp"],
     [("view shrinking", "string.cpp: string_parser::*"), ("is_space classification", "string.cpp: string_parser::is_space")],
     ["returned views (position and length), get_view()/size()/empty() after each call"],
     [("view", "unread text", "string.hpp: string_parser")])

prop("C09", "Integers survive the round trip through text, in every type and base",
     "For every value of every integer type, conversion to text gives its canonical digits in the requested base (binary, octal, decimal, hexadecimal; unsigned values prefixed by 0b, 0 or 0x), and reading a number of that type back from text of its own (decimal for signed types) gives the same value and consumes exactly the number. "
     "Reading skips leading whitespace, stops at the first character that is not part of the number, reports an invalid argument when there is no number, and yields zero, with all its digits consumed, for a number outside the range of the type.",
     ["inputs"], "every value of every integer type, every base, and every text",
     "a handful of numbers per type; limits of each type, prefixes followed by junk, and overflow in each base are not covered.",
     ["string.hpp"],
     [("prefix detection and std::from_chars", "string.hpp: string_parser::read_number"), ("prefix and std::to_chars", "string.hpp: to_string")],
     ["returned number, exception and unread text", "returned text"])

prop("C10", "Floating point text is parsed to the nearest representable value",
     "For every decimal floating point literal (in the hexadecimal format: hexadecimal, without prefix) whose value is in the range of the type, parsing it as float, double or long double gives the representable value (of float, or of double for the other two) nearest to its exact value, ties to even, and consumes exactly the literal, also when it is followed by other text; the fixed format takes no exponent and the scientific format requires one. "
     "Text that does not start with a number is reported as an invalid argument.",
     ["inputs"], "every decimal and hexadecimal literal (any number of digits, any exponent, with or without fraction) in normal range",
     "a dozen literals; correct rounding depends on all digits and fails only on rare near-halfway cases.",
     ["string.cpp", "string.hpp"],
     [("fast_float wrapper", "string.cpp: from_chars"), ("read_number<floating>", "string.hpp: string_parser::read_number")],
     ["bits of the returned value, end position"])

prop("C11", "Trimming and prefix/suffix tests match their definitions on every string",
     "For every string, trimming the front, the back or both removes exactly the whitespace at that end and returns a view of the rest inside the original (an empty rest may lie anywhere). "
     "A string is reported to start (end) with another exactly when its first (last) characters are that other string, including when the other is empty, longer, or also occurs elsewhere; this holds for every supported language standard.",
     ["inputs", "configurations"], "every pair of strings, C++17 and C++20",
     "six suffix cases in one language mode; repeated occurrences and other standards take different code paths.",
     ["string.hpp"],
     [("find_if over whitespace", "string.hpp: trim_front/trim_back/trim"), ("starts_with/ends_with fallbacks", "string.hpp: starts_with, ends_with")],
     ["returned views and booleans"])

prop("C12", "Formatted strings are complete whatever their length",
     "For every printf-style format and arguments, the formatted string equals what the C formatting functions define, complete and with exact length, whether the result is empty, short, exactly at, or far beyond the size of any internal buffer, and also when it is produced from an argument list; what they cannot format is reported as a logic error. "
     "An indentation string consists of exactly depth times size spaces, or depth tabs when the size is zero.",
     ["inputs"], "every format, arguments and result length",
     "short strings and one long one; the switch between the fixed and the grown buffer happens at one length.",
     ["string.cpp"],
     [("two-pass vsnprintf with va_copy", "string.cpp: make_string_va_list"), ("make_indentation", "string.cpp: make_indentation")],
     ["returned strings"])

prop("C13", "A signal calls each connected callback once, in order, with the emitted values",
     "For every history of connects, disconnects and emissions, an emission calls each callback that is connected throughout it exactly once, in connection order, and every one of them receives the values that were emitted (by value or by constant reference), whatever other callbacks do with theirs; it is the connected callback itself which is called, so what it remembers it still knows at the next call. "
     "A disconnected callback is never called again, disconnecting one leaves all other connections working, also when it happens inside an emission (of another callback than the running one), and the reported size is always the number of live connections.",
     ["histories"], "every history, including connects, disconnects and nested emissions made by callbacks, and every argument kind",
     "two callbacks without arguments; argument hand-over between callbacks and changes made during an emission are never exercised.",
     ["signal.hpp"],
     [("list of callbacks with stable iterators", "signal.hpp: connect/disconnect"), ("emission loop", "signal.hpp: emit")],
     ["calls and arguments seen by callbacks", "size(), empty()"],
     [("callbacks", "connected callbacks in order", "signal.hpp: signal")])

prop("C14", "At most one singleton instance exists and access always reaches it",
     "For every history of constructions, failed constructions and destructions, at most one object of a singleton class exists at a time: a second construction reports a logic error and leaves the existing instance reachable and unharmed, and after the instance is destroyed, or its construction fails in a derived constructor, the class can be instantiated again. "
     "The class reports being created exactly while an instance exists, access returns that very instance (also across a shared library boundary), no second object can be made by copying or moving, and different singleton classes never affect each other. When a program ends while an instance exists, it ends normally and the instance is destroyed at most once.",
     ["histories"], "every history of construction attempts (including throwing ones) and destructions, for plain and intrusive singletons",
     "a single construction and access; failing constructions and re-creation are not covered.",
     ["singleton.hpp"],
     [("check-and-set in base constructor, release in base destructor", "singleton.hpp: intrusive_singleton")],
     ["exceptions from constructors, is_created(), address of inst()"],
     [("instance", "pointer to the one live instance or null", "singleton.hpp: singleton/intrusive_singleton")])

prop("C15", "A spin lock admits one holder at a time and publishes its writes",
     "For every number of threads and every schedule of lock and unlock, at most one thread is between a returned lock and its matching unlock, everything written before an unlock is visible to (and free of data races with) the next holder, and no increment protected by the lock is lost. "
     "While the lock is held other lock calls wait however long it takes; after it is released some waiting thread obtains it.",
     ["schedules"], "every schedule of any number of threads",
     "nothing: no test takes a spin lock.",
     ["spin_lock.hpp"],
     [("atomic test-and-set with acquire, clear with release", "spin_lock.hpp: spin_lock")],
     ["entry to and exit from the protected region", "protected data"])

prop("C16", "A scope guard runs its action exactly once, or never after release",
     "For every program, the action given to a scope guard runs exactly once, when the guard is destroyed, whether the scope is left normally or by an exception, in reverse order of creation of the guards, and an exception thrown by the action does not escape. "
     "After release the guard runs nothing and the caller gets back the action, callable as often as wanted; releasing again yields an empty action. A guard cannot be copied, moved or assigned.",
     ["histories"], "every nesting of guards, releases, normal and exceptional exits and throwing actions",
     "single guards left normally; nesting, exceptions in flight and throwing actions are not combined.",
     ["utility.hpp"],
     [("destructor call with catch-all, release moves the action out", "utility.hpp: scope_exit")],
     ["order and count of actions run"],
     [("f", "action still to be run or empty", "utility.hpp: scope_exit")])

prop("C17", "Shared references keep an object alive exactly as long as it is owned",
     "For every history of creating, copying, assigning, moving, converting (to base, to const, to shared or weak pointers, back from the object itself) and dropping shared references, each reference denotes the object it was made from, an object is destroyed exactly once, when its last owner goes, and never while a reference to it exists, also when the owner of what is assigned is released by that very assignment. Making an object hands its constructor exactly the given arguments. "
     "A dynamic cast yields a reference to the same object and shares ownership exactly when the object has the target type, otherwise it reports a bad cast and changes nothing; weak pointers never prolong life; comparing references compares the objects.",
     ["histories"], "every history over several objects, references and classes with single, multiple and virtual inheritance",
     "short straight-line uses; ownership counts along arbitrary histories are not observed.",
     ["shared_ref.hpp", "shared.hpp"],
     [("wrapper around std::shared_ptr", "shared_ref.hpp: shared_ref"), ("dynamic_reference_cast", "shared_ref.hpp"), ("make_shared_from/make_weak_from/make_weak", "shared.hpp")],
     ["object destructions, use counts, identity of referenced objects"])

prop("C18", "Unique references own their object exclusively",
     "For every history of creating, moving, converting to base, extracting and dropping unique references, each live object has exactly one owner, a moved reference denotes the same object (also when its owner is released by that very move), and the object is destroyed exactly once, when its owner is dropped or overwritten. Making an object hands its constructor exactly the given arguments. "
     "Extracting the pointer hands over that very object without destroying it; comparing references compares the objects.",
     ["histories"], "every history over several objects and references",
     "short straight-line uses; chains of moves, overwrites and extraction are not covered.",
     ["unique_ref.hpp"],
     [("wrapper around std::unique_ptr, move only", "unique_ref.hpp: unique_ref")],
     ["object destructions, identity of owned objects"])

prop("C19", "Tree traversal visits every node once in pre-order, both ways",
     "For every forest, advancing from the beginning visits every node exactly once in pre-order and reaches the end, and moving backwards from the end visits the same nodes in the opposite order, so that advance and retreat undo each other at every position (also for constant and reverse iterators). "
     "At every position the reported index, depth, last-child flag and ancestors are those of the node, an index is reported valid exactly when such a node exists, making an iterator or accessing by a valid index reaches exactly that node, an index (also an empty one) or level outside the tree is reported as out of range, and iterator comparison agrees with traversal order.",
     ["inputs", "histories"], "every forest shape and every sequence of iterator steps",
     "two or three fixed trees; the number of shapes grows exponentially and error cases depend on where empty child lists and last children fall.",
     ["tree.hpp"],
     [("stack of lists and list iterators", "tree.hpp: traversal::iterator_internal"), ("index to iterator conversion", "tree.hpp: make_iterator_internal, is_valid, operator[]")],
     ["value, index(), depth(), is_last_child(), at_level() at each iterator position"],
     [("list_stack/iter_stack", "path from the roots to the node", "tree.hpp: iterator_internal")])

prop("C20", "Tree edits change exactly the addressed place and return the right position",
     "For every forest and every history of insertions before or after a position and erasures, the forest afterwards differs from the one before only by the inserted or removed subtree at the addressed place, all other nodes keep their values and order. "
     "Insertion returns a position denoting the inserted node, erasure returns the position of the next node in traversal order after the removed subtree (the end if there is none), and iteration from the returned position continues correctly.",
     ["histories"], "every history of edits on every forest, at every level, including first, last and only children",
     "a handful of edits on fixed trees; erasing last children at depth and edits at the end position of long histories are rare cases.",
     ["tree.hpp"],
     [("edit through the innermost list, pop while at end", "tree.hpp: traversal::insert/insert_after/erase")],
     ["whole forest and returned iterator after each edit"])

prop("C21", "Trees are values: copies are equal, independent and deep",
     "For every tree, a copy (by construction or assignment) compares equal to the original, editing one never changes the other, moving transfers the whole subtree, a node may be assigned from any node below or above it in the same tree, and two trees compare equal exactly when their values and all their subtrees in order are equal. "
     "Comparing a tree with a plain value compares only the root value.",
     ["inputs", "histories"], "every pair of trees and every edit after copying",
     "a few small trees; deep differences and aliasing after edits are not sampled.",
     ["tree.hpp"],
     [("defaulted copy/move of value and children, recursive comparison", "tree.hpp: tree")],
     ["operator== results and contents after edits"])

prop("C22", "A flag set behaves as a set over its enumeration",
     "For every enumeration size and every history of setting, clearing, inverting, assigning and combining (not, and, or, xor, also with single flags and in construction), a flag set contains exactly the flags that the corresponding set operations give, queries for one, all or no flags and equality agree with it, operations without assignment leave their operands unchanged, and printing shows the flags as a string of zeros and ones, last flag first.",
     ["histories", "configurations"], "every history of operations on every enumeration size, including sizes around machine words",
     "one enumeration of few items; other sizes and combined histories are not covered.",
     ["flags.hpp"],
     [("std::bitset of enum_size bits", "flags.hpp: flags")],
     ["get() of every flag after each operation"],
     [("bitset", "one bit per flag", "flags.hpp: flags")])

prop("C23", "Sorting yields the ordered permutation of its input",
     "For every range of elements and every strict weak ordering, sorting rearranges the range into a permutation of the original that is in order, at run time and in constant evaluation, for every supported language standard, and changes nothing outside the range; a small stack suffices for it in every case.",
     ["inputs", "configurations"], "every range (any length, duplicates, sorted, reversed, equal) and ordering",
     "a few ten-element arrays; partition errors need particular duplicates, lengths or pivot positions.",
     ["sort.hpp"],
     [("three-way quick sort", "sort.hpp: quick_sort, partition"), ("std::sort in C++20", "sort.hpp: sort")],
     ["the range after sorting"])

prop("C24", "Query pipelines compute their meaning and never touch borrowed sources",
     "For every collection and function, selecting maps each element in order (passing its position when asked), filtering keeps exactly the matching elements in order, grouping puts every element under its key in original order, and ordering gives a permutation sorted by key; steps compose. "
     "A collection passed by reference, or referred to by a view such as a span, is never modified, whatever the pipeline and however its functions take their arguments.",
     ["inputs", "programs"], "every collection, function and composition of steps",
     "small fixed pipelines; empty collections, duplicate keys and moved-from elements in longer compositions are not covered.",
     ["linq.hpp"],
     [("aggregator holding a reference or an owned collection", "linq.hpp: linq_collection_aggregator")],
     ["resulting collection, source after the query"])

prop("C25", "A span is an exact window on its memory",
     "For every span and every sub-span taken from it, size, emptiness, element access, iteration (both ways), first and last element and conversions to other views denote exactly the elements of that window and never anything outside; checked access reports out of range exactly for positions outside the window. "
     "Whether a pointer lies within a span is answered exactly (never for an empty span), and deep comparisons of spans agree with lexicographic comparison of their elements.",
     ["inputs", "histories"], "every memory block, every chain of sub-spans, every position, pointer and pair of spans",
     "a few buffers; empty spans, positions at the edges and comparison of spans of different lengths are sampled thinly.",
     ["span.hpp"],
     [("pointer and length", "span.hpp: span, subspan, at, overlaps, deep_*")],
     ["offsets and values reached through the span"],
     [("buf, buf_size", "start and length of the window", "span.hpp: span")])

prop("C26", "Views and enumeration-indexed arrays present exactly the underlying elements",
     "For every collection, skipping a front part, reversing and zipping present references to exactly the right elements in the right order: zipping any collections stops with the shortest (as they are when the view is iterated) and writing through a view changes the element itself and nothing else. "
     "Iterating an enumeration visits every item once in order (backwards in the opposite order), and an array indexed by an enumeration gives each item its own element and pairs each element with its item.",
     ["inputs", "configurations"], "every combination of collections and sizes, and every enumeration size and underlying type",
     "small fixed collections; unequal and empty collections and other enumeration types are not covered.",
     ["views.hpp", "enum_array.hpp", "enum_iterable.hpp", "utility.hpp"],
     [("wrappers returning collection iterators", "views.hpp: skip_front, reverse, zip"), ("counting iterator", "enum_iterable.hpp"), ("std::array with enum index", "enum_array.hpp")],
     ["elements seen through the view, collection after writes"])

prop("C27", "An exception stack description lists every level once, outermost first",
     "For every chain of nested exceptions, of standard or any other types and however nested, the description has exactly one entry per level, outermost first, separated by line feeds, each starting with the requested indentation and naming the type of that level, followed for standard exceptions by their message (which the current exception, taken without an object, lacks at its outermost level). "
     "A stacked exception describes its nesting exception and then everything nested in it, and its message as a standard exception is a heading followed by that description, the text once returned remaining valid, whatever is asked of the exception, as long as it exists. "
     "Describing the current exception works for every type and reports a logic error when there is none.",
     ["inputs", "programs"], "every chain length and every mix of exception kinds and ways of nesting",
     "chains of three or four of one kind; mixed chains and user-defined kinds of exceptions are not covered.",
     ["exception.cpp", "exception.hpp"],
     [("recursive rethrow", "exception.cpp: to_string, current_exception_to_string"), ("nested exception member", "exception.hpp: stacked_exception")],
     ["description strings"])

prop("C28", "Assertions stop the program exactly when they fail; logging is complete",
     "For every condition form (boolean, pointer, smart pointer, function), an always-on assertion lets execution continue without output when it holds, and otherwise prints the source location and the supplied message to the error stream (with control sequences only if that is a terminal) and aborts; debug-only assertions and logging do the same in debug builds and nothing at all (no evaluation of message or condition functions) in other builds. "
     "Logging writes exactly the supplied text to standard output, flushed when the call returns, and an empty log function is ignored.",
     ["inputs", "configurations"], "every overload and outcome in debug and non-debug builds and both language standards",
     "assertions that hold, plus logging by eye; failing assertions are never observed.",
     ["debug.cpp", "debug.hpp", "log.cpp", "log.hpp"],
     [("assert_always", "debug.cpp"), ("assert overloads", "debug.hpp"), ("log", "log.cpp")],
     ["process outcome, stderr and stdout of a child process"])

prop("C29", "Version ordering is total and agrees with the packed number",
     "For every pair of major.minor versions, exactly one of less-than and greater-or-equal holds, the order is by major then minor, it agrees with the order of the packed 32-bit numbers, packing is injective (major in the upper half, minor in the lower), and printing gives the two decimal numbers separated by a dot.",
     ["inputs"], "all pairs of versions",
     "a few pairs.",
     ["version.hpp"],
     [("comparison operators and packing", "version.hpp: version_duplet")],
     ["comparison results, packed number, printed text"])

prop("C30", "Container helpers agree with their set-theoretic meaning",
     "For every container and value, containment is reported exactly when an equal element (for maps, an equal key) exists; flipping a map yields, for each distinct value, an entry from it to one of the keys that had it and nothing else, all entries when values are distinct; flipping a pair swaps its components. "
     "Stepping an iterator forward or backward by any count lands exactly that many elements away, including counts beyond the largest value of the iterator's own difference type; the end pointer of a contiguous sequence is the position right behind its last element.",
     ["inputs"], "every container, value, map and step count",
     "a few small containers and maps; small difference types and duplicate values are rare cases.",
     ["utility.hpp"],
     [("contains, flip_map, flip_pair, next, prev", "utility.hpp")],
     ["returned booleans, maps and iterator positions"])

prop("C31", "Signs, powers and angle conversions are arithmetically right",
     "For every integer or floating point type and every value, the sign is -1 exactly for negative and 1 for positive numbers (a zero, also a negative one, is not negative), and the second to sixth power is exactly the product of that many factors whenever that is representable in the type (otherwise, for floating point types, up to rounding). "
     "Converting degrees to radians multiplies by pi/180 and converting back undoes it (for angles whose 180-fold is in the range of the type), up to rounding of the type (and of the double constant pi); the constants pi, two pi, ln 2, half a turn in degrees, centimetres and millimetres per inch and bytes per kilobyte have their mathematical values to double precision. All of it also holds in constant evaluation.",
     ["inputs", "configurations"], "every value of every arithmetic type whose result is representable",
     "a few constants of one type; every type, sign and magnitude is another instantiation.",
     ["math.hpp", "utility.hpp"],
     [("sign, pow2..pow6, deg_to_rad, rad_to_deg, constants", "math.hpp"), ("kilobyte, cm_per_inch, mm_per_inch", "utility.hpp")],
     ["returned numbers"])

prop("C32", "Type-level helpers answer exactly for every type",
     "For every type: the index of a type in a variant is its position among the alternatives; the smallest integer types for 1 to 8 bytes have the least sufficient standard size and the stated signedness; specialization of a template, scoped enumeration and presence of a member type are reported exactly, the latter giving that type or void; removing reference and qualifiers, or pointer and const, leaves exactly the type underneath; offsetting an index sequence adds the offset to every index; bit and byte masks have their values; the macro chooser selects by number of arguments. The readable name of a type's information is the type's C++ name (with GCC and Clang). "
     "A visitor made of several functions calls the one written for the alternative's type, and otherwise the generic one. An object destroyed through a pointer to the destructable base is destroyed completely.",
     ["inputs", "configurations"], "every type, variant, enumeration and set of visiting functions, in both language standards",
     "one or two static assertions each; the space of types is unbounded.",
     ["type_traits.hpp", "variant.hpp", "destructable.hpp", "macros.hpp", "utility.hpp"],
     [("uint_size, int_size, remove_const_pointer, remove_const_reference, type_or_void, is_specialization_of, is_scoped_enum", "type_traits.hpp"), ("index_of, overloaded", "variant.hpp"), ("virtual destructor", "destructable.hpp")],
     ["constants and types computed at compile time, called functions, run destructors"])

prop("C33", "Ticks are the system clock's milliseconds modulo 2^32",
     "At every time, the tick count is the number of whole milliseconds since the epoch of the system clock, modulo 2^32, so that the difference of two counts taken as a 32-bit number is the time elapsed between them (modulo 2^32 ms), also when the count wraps around in between.",
     ["histories", "inputs"], "every clock value and every history of readings",
     "nothing: no test reads the ticks, and a wrap happens once in 49 days.",
     ["time.cpp", "time.hpp"],
     [("duration cast and truncation to 32 bits", "time.cpp: get_ticks_ms")],
     ["returned tick counts under a controlled clock"])

prop("C34", "Terminal queries answer for the present connection of their own stream",
     "For every combination of connections of standard input, output and error (terminal, pipe, file, socket, device, directory, closed) and every history of reconnecting them, each query reports a terminal exactly when its own stream is connected to a terminal at that moment, whatever the other streams are connected to.",
     ["histories", "configurations"], "every combination of connections and every history of reconnections",
     "nothing: test runs have no terminal at all.",
     ["utility.cpp"],
     [("isatty on the stream's descriptor", "utility.cpp: is_terminal_cin, is_terminal_cout, is_terminal_cerr")],
     ["returned booleans"])

prop("C35", "Threads using different objects, or reading the same ones, do not interfere",
     "For every schedule of any number of threads, each working on objects of its own, every call of every part of the library has the same result and the same effects as if its thread ran alone. "
     "The same holds for threads which only read one and the same constant object (text, tree, flags, collection, exception, ...), and what such a reader has been given stays valid. "
     "An object referred to by shared references which several threads copy, convert and drop lives as long as anybody refers to it and is destroyed exactly once. None of this involves a data race.",
     ["schedules", "histories"], "every interleaving of every set of threads and calls",
     "nothing: all tests run in one thread, and a race needs an unfortunate schedule to show.",
     ["string.cpp", "unicode.cpp", "base64.cpp", "exception.hpp", "exception.cpp", "debug.cpp", "deserializer.cpp", "shared_ref.hpp", "tree.hpp", "signal.hpp"],
     [("no mutable static or shared state in functions", "string.cpp, unicode.cpp, base64.cpp, exception.cpp, utility.cpp"), ("description made on demand", "exception.hpp: stacked_exception::what"), ("shared ownership", "shared_ref.hpp, shared.hpp")],
     ["results and traces of each thread, data races observed by ThreadSanitizer, destructions"])

prop("C36", "Configuration macros describe the platform a program is compiled for",
     "For every operating system, compiler, language standard, processor and byte order, the configuration macros name the family and the name of the operating system, the compiler, the language standard (the latest known one for later ones) and the byte order exactly, "
     "and the processor and its width in bits exactly (its generation, too, for 32-bit ARM and x86) when compiled by GCC for x86, x86-64 or ARM, by the Microsoft compiler for x86 or x86-64, or for WebAssembly by Emscripten; whatever is not told apart is unknown, never something else.",
     ["configurations"], "every platform, compiler and language standard",
     "nothing: the tests run on one platform, with one compiler and one standard at a time.",
     ["config.hpp"],
     [("order and conditions of the platform tests", "config.hpp")],
     ["values of the macros after preprocessing"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties", [ (p["id"],len(p["title"])) for p in P if len(p["title"])>80])
