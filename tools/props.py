#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
I = "include/Caitlyn/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": [I + f for f in files],
         "mechanism": [{"name": n, "where": I + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


STR = "__Core/String/String.h"
CH = "__Core/Char/Char.h"
CU = "__Core/Char/Utility.h"

prop("C01", "UTF-8 text passes through String unchanged, one element per code point",
     "For every sequence of non-NUL Unicode scalar values, a String built from its UTF-8 encoding (from a C string, a std::string, a literal, a list of characters, a range of characters, code points or bytes, or character by character) has exactly one element per code point, reports the matching length and byte count, and holds the matching character at every index. Every way of getting the text out (str, iteration in both directions, stream output) gives back exactly the input bytes. At() throws out_of_range for every index not below the length.",
     ["inputs"], "every sequence of Unicode scalar values 1..10FFFF (all planes, all encoded lengths, any length)",
     "The only String test prints one sample; no test touches multi-byte text, and no finite sample covers every code point and mixture.",
     [STR, CH], [("decoding of a C string into characters", STR + ":DecodeUtf8Char"), ("re-encoding", STR + ":str")],
     ["String construction, size/Length/ByteCount/At/operator[], iterators, str, operator<<"])

prop("C02", "Malformed UTF-8 is rejected or kept verbatim, never misread",
     "Building, extending or inserting into a String, or building a Char, from any byte sequence either throws an exception or yields text whose bytes are exactly the input's; truncated multi-byte sequences, wrong continuation bytes and invalid lead bytes always throw. A rejected operation leaves an existing String as it was or extended by a prefix of the input. No byte beyond the end of the input is ever read.",
     ["inputs"], "every byte string without NUL, well-formed or not, in exactly sized buffers",
     "No test feeds malformed text; out-of-bounds reads are invisible without instrumentation.",
     [STR, CH], [("lead-byte length table", STR + ":DecodeUtf8Char"), ("validation", CH + ":IsValidUtf8Char")],
     ["String/Char constructors, Append, Insert, assignment on malformed bytes in ASan red-zoned buffers"])

prop("C03", "String editing and slicing behave as operations on a code-point sequence",
     "Concatenation (+, +=), PushBack, every form of Append and Insert, Substring, Clear, element assignment, copying, moving and assignment transform a String exactly as the same operations on a sequence of code points would, including on empty strings, at both ends, and when the argument is the string itself. Positions past the end throw out_of_range and leave the string unchanged; a copy is independent of its source.",
     ["histories", "inputs"], "every history of editing operations over several strings of any content",
     "No test performs a single edit; correctness is about all histories and argument values including self-aliasing.",
     [STR], [("vector-of-characters representation", STR + ":data_"), ("editing", STR + ":Insert/Append/Substring/operator+")],
     ["full content of every string after every operation"])

prop("C04", "String searching and comparison agree with the code-point sequence",
     "For every non-empty pattern, Find returns the lowest index not below the start position at which the pattern occurs and ReverseFind the highest index at which it occurs, or NPosition if there is none (also for a start past the end); Contains, StartsWith, EndsWith, FindIf and FindIfNot agree with the same definitions on the code-point sequence. The six comparison operators form a total order that compares code points lexicographically, and comparing with a C string gives the same answer as comparing with the String made from it.",
     ["inputs"], "every pair of strings, every start position, periodic and overlapping patterns included",
     "No test searches or compares beyond one equality; wrong answers need particular overlaps or positions.",
     [STR, CH], [("Find/ReverseFind", STR + ":Find/ReverseFind"), ("comparison", STR + ":operator<")],
     ["return values of search and comparison"])

prop("C05", "Char and code point are two views of the same value",
     "For every Unicode scalar value other than 0, building a Char from the code point gives its standard UTF-8 encoding, building a Char from that encoding gives back the code point, and both compare equal; assignment behaves as construction. Comparing two Chars orders them by code point.",
     ["inputs"], "all 1,112,063 non-zero scalar values; all pairs for ordering (sampled)",
     "No test converts a single code point.",
     [CH], [("encoder", CH + ":FromCodePoint"), ("decoder", CH + ":GetCodePoint")],
     ["Char(CodePoint), GetCodePoint, str, comparison operators"])

prop("C06", "Case mapping is the Unicode simple mapping wherever it changes a character",
     "ToUppercase and ToLowercase, on a code point, a Char or a whole String, map every letter of the Latin alphabet, Latin Extended-A (U+0100..U+0177), the Greek and Cyrillic alphabets and the Greek Extended ranges they cover to its Unicode simple mapping, and otherwise never change a character to anything but its Unicode case counterpart (special cases: sharp s to capital sharp s, U+0149 to U+02BC). Characters without case (digits, CJK, emoji, punctuation) are returned unchanged. Mapping is idempotent, and a String is mapped character by character without changing its length or the source.",
     ["inputs"], "all Unicode scalar values, and strings over them",
     "No test calls the case mapping; the mapping is a hand-written range table over 1.1 million code points.",
     [CU, STR], [("upper table", CU + ":ToUppercase"), ("lower table", CU + ":ToLowercase")],
     ["results for every code point against the Unicode Character Database"])

prop("C07", "Character classification agrees with Unicode",
     "IsSpace holds exactly for the Unicode White_Space characters, IsDigit exactly for the decimal digits of the Basic Multilingual Plane (Sinhala Lith digits excepted), ToDigit gives the value of an ASCII digit and -1 for what is not a digit, IsUppercase and IsLowercase hold only for characters of that case and for every letter of that case of the basic Latin, Greek and Cyrillic alphabets, and IsLetter is their union. The answer is a function of the code point alone: repeated, interleaved and concurrent calls agree.",
     ["inputs"], "all Unicode scalar values and repeated calls in any order",
     "No test classifies a character; the tables have hundreds of entries.",
     [CU], [("tables", CU + ":IsSpace/IsDigit/IsUppercase/IsLowercase")],
     ["results for every code point against the Unicode Character Database"])

prop("C08", "Format substitutes each argument exactly where and how the format string says",
     "String::Format copies text outside replacement fields verbatim, turns {{ and }} into single braces, replaces each {} by the next argument in order (a sole argument serves every {}), each {n} by argument n, and {:spec} / {n:spec} by that argument padded to the given width with the given fill and alignment (left by default, the extra fill character of a centred field on the right), with f.precision cutting or zero-padding the fraction. An unbalanced brace, an index out of range or a missing argument throws and never reads outside the arguments.",
     ["inputs"], "every format string and argument list of integers (8 to 64 bits), floats, booleans and strings",
     "No test formats anything beyond a message; a format string is a small program over any argument list.",
     [STR], [("format interpreter", STR + ":Format"), ("field parser", STR + ":MakeSpacifier"), ("padding", STR + ":ProcessAlignment")],
     ["returned String or thrown exception for generated formats"])

prop("C09", "StringBuilder accumulates exactly what was appended",
     "After any sequence of constructions, copies, moves, appends, formatted appends and line appends, a StringBuilder's text is the exact concatenation of what was appended to it, a line append adding one line feed; reading the text does not change it, a copy starts from the same text, and later appends to either extend only that one. MakeText gives a builder holding the given text.",
     ["histories"], "every history of appends, reads, copies and moves over several builders",
     "No test uses StringBuilder.",
     ["__Core/String/StringBuilder.h"], [("accumulating stream", "__Core/String/StringBuilder.h:data_")],
     ["str() of every builder after every operation"])

prop("C10", "Console streams write and read exactly the bytes they are given",
     "Every Write and WriteLine on the output, error and log streams puts exactly the UTF-8 bytes of the (formatted) value, plus one line feed for WriteLine, on stdout or stderr, in call order and visible to the reader before the call returns. ReadLine returns consecutive input lines without their terminator and ReadChar the first character of the next line; a prompt is written first, and at end of input or on an empty line they return empty values without reading invalid memory.",
     ["histories", "inputs"], "every interleaving of writes and reads, with any text, in a real process over pipes",
     "No test examines what is written to the process's streams.",
     ["__Core/IO/Stream.h"], [("streams", "__Core/IO/Stream.h")],
     ["bytes on the child's stdout and stderr pipes, and values read from its stdin pipe"])

prop("C11", "A File's content is the concatenation of everything written to it",
     "Through any history of opening, Write, WriteLine, Append, AppendLine, Erase, Close, reopening, copying and several File objects on one path, the bytes on disk equal the concatenation, in order, of everything written since the last Erase, each write being on disk when the call returns; existing content is never lost on opening. Reading, at any moment and up to the end of the file, does not affect what later writes do.",
     ["histories"], "every history of file operations over one or several handles",
     "No test writes a file and reads it back; lost writes need particular histories (such as writing after reaching end of file).",
     ["__Core/File/File.h"], [("append-mode stream", "__Core/File/File.h:Open"), ("write-through flush", "__Core/File/File.h:Write")],
     ["file bytes read independently after every operation"])

prop("C12", "Reading a File returns its exact content, line by line or whole",
     "Read returns the whole current content of the file. Successive ReadLine calls return the consecutive delimiter-separated lines from the current position without the delimiter, the position advances past each, SetPosition and GetPosition move within the file, and once the last line was returned IsEof is true and the File converts to false; content appended meanwhile is returned by later reads after repositioning.",
     ["histories", "inputs"], "every text content (empty, no final newline, long lines, multi-byte text, any delimiter) and any interleaving of reads, seeks and writes",
     "No test reads a file back.",
     ["__Core/File/File.h"], [("position", "__Core/File/File.h:currentPosition_"), ("ReadLine/Read", "__Core/File/File.h:ReadLine/Read")],
     ["values returned by Read/ReadLine/GetPosition/IsEof"])

prop("C13", "Every File write that returned survives the process being killed",
     "If a process is killed at any moment, the file holds exactly the concatenation of all writes whose calls had returned, followed at most by a prefix of the write in progress. Writes of up to 1000 bytes by several processes appending to one file are each kept whole, none lost or overwritten.",
     ["crash_points", "schedules"], "every kill point (SIGKILL at any instant or at any system call) and every interleaving of appending processes",
     "No test kills a process or appends from two.",
     ["__Core/File/File.h"], [("flush after each write", "__Core/File/File.h:Write/Append"), ("append mode", "__Core/File/File.h:Open")],
     ["file content after SIGKILL against the writes acknowledged over a pipe"])

BI = "__Numeric/Types/BigInteger.h"
prop("C14", "BigInteger arithmetic is exact",
     "For every pair of integers of any size and sign, addition, subtraction, multiplication, division and remainder (quotient truncated towards zero, remainder with the sign of the dividend), power, square, integer square root and absolute value of BigInteger give exactly the mathematical result, also when both operands are the same object. Operands are not changed, and division by zero, negative exponents and roots of negatives throw.",
     ["inputs"], "all pairs of integers: every sign combination, carries and borrows across limbs, hundreds of digits",
     "No numeric test exists; arithmetic errors hide in sign combinations and carries.",
     [BI], [("schoolbook digit arithmetic", BI)],
     ["decimal text of every result against an independent bignum"])

prop("C15", "BigInteger text, conversion and ordering denote the same integer",
     "Parsing any decimal numeral (optional sign, leading zeros) and printing it gives the canonical form of the same integer, with no leading zeros and no negative zero; building from a machine integer gives that integer, and text that is not a numeral is rejected. The six comparison operators order BigIntegers as integers, and equal values print the same and compare equal however they were produced.",
     ["inputs"], "all decimal strings and malformed strings, all pairs of integers of any sign and size",
     "No numeric test exists.",
     [BI], [("parser", BI + ":constructor"), ("ordering", BI + ":LessThan")],
     ["text and comparison results against Python integers"])

BF = "__Numeric/Types/BigFloat.h"
prop("C16", "BigFloat decimal arithmetic is exact and prints what it holds",
     "For every pair of decimal numbers of any size, sign and scale, BigFloat addition, subtraction, multiplication, power and absolute value give exactly the mathematical decimal result, division and square root the exact result truncated towards zero to the fraction digits of the more precise operand (not counting trailing zeros), and comparison orders them as numbers, trailing and leading zeros making no difference. Division by zero, negative exponents and roots of negatives throw. Parsing a decimal numeral and printing it denotes the same number, and text that is not a decimal numeral is rejected.",
     ["inputs"], "all pairs of finite decimals: every sign combination, leading zeros in the fraction, carries across the point",
     "No numeric test exists.",
     [BF], [("digit arithmetic", BF)],
     ["text of every result against exact rationals"])

EX = "__Core/Error/Expected.h"
prop("C17", "Expected holds exactly one of value or error, and reports which",
     "Through every construction, copy, move and assignment between value and error states, an Expected holds exactly the value or the error last put in it: the observers agree on which one, the accessors return it, accessing the absent one throws, and UnwrapOr, Map, MapError, AndThen and OrElse call their function exactly when their side is present, pass it the held object and return what the combination specifies, passing the other side through unchanged.",
     ["histories", "inputs"], "every history of operations over several Expecteds, with value and error types of every copyability",
     "ResultTest exercises a few fixed cases with int and String; most state transitions and combinators are never instantiated.",
     [EX, "__Core/Error/Unexpected.h"], [("tagged union", EX + ":hasValue_")],
     ["observers and accessors after every operation against a model"])

prop("C18", "Expected constructs and destroys its content exactly once, even on exceptions",
     "Every value or error object an Expected constructs is destroyed exactly once, through every copy, move, assignment between states, self-assignment and combinator, and nothing is used after its destruction or leaked. If copying the content throws, the Expected involved remains valid and can be destroyed or assigned, without double destruction.",
     ["histories", "fault_sequences"], "every history over several Expecteds, with a copy or move that throws at any point",
     "Tests cannot see double destruction or leaks, and no test injects a throwing copy.",
     [EX], [("manual lifetime", EX + ":operator=/~Expected")],
     ["constructor/destructor event log of tracked value and error types; ASan"])

SP = "__Core/Memory/Types/SharedPointer.h"
prop("C19", "Owned objects are destroyed exactly once, when the last owner goes",
     "An object managed by SharedPointer is alive while at least one owner refers to it and is destroyed exactly once when its last owner is destroyed, reset, released or reassigned; one managed by UniquePointer is destroyed exactly once when its owner lets go of it, unless ownership was released or moved. Copies, moves, swaps and assignments (also to itself, or from a pointer inside the object it owns, or while a destructor of an owned object uses the pointers) change owners as specified, accessors refer to the owned object, and dereferencing an empty pointer throws. A WeakPointer does not keep the object alive: it locks to an owner exactly while the object is alive, and is expired afterwards.",
     ["histories"], "every history of pointer operations over several pointers and objects",
     "No test covers the smart pointers; leaks and double deletes are invisible to assertions.",
     [SP, "__Core/Memory/Types/UniquePointer.h", "__Core/Memory/Types/WeakPointer.h"], [("reference count", SP + ":ref_count_")],
     ["constructor/destructor event log of tracked objects, accessors, ASan, allocation balance"])

prop("C20", "SharedPointer ownership is safe across threads",
     "When several threads copy, move, reset and destroy their own SharedPointers to a shared object in any interleaving, or lock WeakPointers to it, the object is destroyed exactly once, after every access made through any owner, and no data race occurs.",
     ["schedules"], "every interleaving of threads copying and dropping owners",
     "No test runs a second thread; races need particular interleavings and memory orderings.",
     [SP], [("atomic reference count", SP + ":ref_count_")],
     ["ThreadSanitizer and destruction events under stress with injected delays"])

JP = "__Serializing/Json/Types/JsonParser.h"
JD = "__Serializing/Json/Types/JsonData.h"
JS = "__Serializing/Json/Types/Json.h"
prop("C21", "JSON parse and serialize preserve the document",
     "Parsing any RFC 8259 text whose root is an object yields the document's structure and values: strings with every escape and surrogate pair decoded, integers within 64 bits exact, other numbers to the library's floating precision, the last of duplicate keys. (Nesting of more than 512 levels, numbers outside the 64-bit integer or 32-bit floating range, and escapes for U+0000 or a lone surrogate, which a String cannot hold, are reported as errors instead.) Serializing any document, compactly or structured with any indent, gives RFC 8259 text that any JSON reader reads as the same document (a floating value that is not finite reads as null), and parsing it again with the library gives an equal document.",
     ["inputs"], "every JSON document: any nesting, any Unicode text in keys and values, any numbers, any whitespace",
     "Nine JSON tests use a handful of small ASCII documents without escapes.",
     [JP, JD, JS, "__Serializing/Json/Utility.h"], [("parser", JP), ("serializer", JS)],
     ["parsed tree read through the API and serialized text, against an independent JSON implementation"])

prop("C22", "Text that is not JSON is rejected and never crashes the parser",
     "Every text that is not a well-formed JSON document (truncated, misplaced or missing punctuation, bad literals, bad numbers, bad or incomplete escapes, unterminated strings, trailing content) is reported as an error, without a result document. On every input, well-formed or not, of any nesting depth, parsing terminates without reading outside the input, overflowing the stack or leaking memory, and every error has a message of its own.",
     ["inputs"], "every byte string: mutations of valid documents at every position, truncations at every point, random and deeply nested inputs",
     "The JSON tests include a few malformed samples; a parser must reject all of them.",
     [JP, JS], [("error reporting", JP + ":error_"), ("cursor", JP + ":position_")],
     ["Expected result and error of parsing, under ASan/UBSan with a stack limit and watchdog"])

prop("C23", "A JSON document tree behaves as an ordinary value",
     "Through every history of building, reading, replacing and removing members and elements, changing types, copying, moving and assigning (also from a part of itself), a JSON document holds exactly the values an ordinary tree would, members in the order they were added; copies are independent and deep. Writing access converts a value to an object or array and creates missing members and elements as null; reading access throws std::out_of_range for what is missing. Typed getters return the value for the right type and an empty default for another. All memory is released exactly once.",
     ["histories"], "every history of document operations over several documents",
     "No test mutates a document; leaks and aliasing errors are invisible to assertions.",
     [JD, JS], [("tagged union", JD), ("ownership of children", JD)],
     ["the whole tree read back after every operation against a model; allocation balance; ASan"])

prop("C24", "The test framework runs every test once and reports the true outcome",
     "RunAll runs every registered test exactly once, whatever other tests do: a test that fails an assertion or throws any exception with any message is counted as failed and the run continues. The reported totals match, the process result is success exactly when every test passed, and each assertion macro passes exactly when its condition holds, evaluating its arguments once when it does.",
     ["programs", "histories"], "every set of registered tests and fixtures, with every outcome in every order",
     "The suite itself runs on this framework, so a framework that hides failures makes every test pass.",
     ["__Testing/Types/TestRegistry.h", "__Testing/Macro/Assert.h", "__Testing/Macro/Test.h", "__Testing/Macro/TestFixture.h", "__Testing/Types/TestCase.h"],
     [("registry", "__Testing/Types/TestRegistry.h:RunAll"), ("assertions", "__Testing/Macro/Assert.h")],
     ["execution log of generated test programs, their report and exit status"])

prop("C25", "Random values stay within the requested range and reach all of it",
     "Random(min, max) returns a value within the inclusive range for every integer type of 16 to 64 bits and every floating type and every range min <= max, including single values and the full range of the type, and over many calls reaches the whole range rather than a part of it, with each part of the range about as likely as its size. RandomBoolean(p) is always false for 0, always true for 1, true with frequency close to p in between, and throws outside 0..1.",
     ["inputs"], "all supported types and all ranges min <= max",
     "No test calls Random; a value outside the range may be rare.",
     ["__Core/Utility/Random.h"], [("distributions", "__Core/Utility/Random.h")],
     ["returned values over many calls, with statistical acceptance bounds of negligible false-alarm probability"])

prop("C26", "Integer comparisons across types are mathematically correct",
     "cmp_eq, cmp_ne, cmp_less, cmp_greater, cmp_le and cmp_ge compare the mathematical values of two integers of any signedness and width, so that a negative value is below every non-negative one and exactly one of less, equal and greater holds.",
     ["inputs"], "all pairs of values of all pairs of integer types",
     "No test uses them; four of the six were never instantiated.",
     ["__Core/Utility/Comparators.h"], [("comparisons", "__Core/Utility/Comparators.h")],
     ["results for exhaustive 8-bit and boundary-dense wider pairs"])

prop("C27", "String and map utilities compute what they say for every input",
     "Split returns the delimiter-separated pieces of a text as std::getline would, Repeat the text repeated count times, kmp whether the pattern occurs in the text, IsNumber whether a text is a non-empty run of digits, and FindFirstNonSpace / FindLastNonSpace the index of the first / last non-space character or the length if there is none. EscapeString replaces each escape sequence (including \\uXXXX) by the character it denotes and keeps other text unchanged, and GetMapKeys / GetMapValues return all keys / values of a map in its order.",
     ["inputs"], "all texts, patterns (periodic, empty, longer than the text), counts and maps",
     "No test calls these helpers.",
     ["__Core/String/Utility.h", "__Core/String/Algorithms/Kmp.h", "__Core/Collections/Utility/MapUtility.h"],
     [("helpers", "__Core/String/Utility.h"), ("failure function", "__Core/String/Algorithms/Kmp.h")],
     ["return values against an independent implementation"])

prop("C28", "Type queries and type transformations agree with the C++ standard",
     "Every type query of the traits library gives, for every type, the answer of the standard type trait it names, and every type transformation gives the standard's result type; a query for an operator or member says whether the expression is valid.",
     ["programs"], "every type: fundamental, cv-qualified, pointer, reference, array, function, member pointer, enum, union, class (empty, abstract, final, polymorphic, move-only, throwing)",
     "No test instantiates the traits.",
     ["__Core/Traits/Constraints/Primary.h", "__Core/Traits/Constraints/Properties.h", "__Core/Traits/Constraints/Composite.h", "__Core/Traits/Constraints/Operations.h", "__Core/Traits/Constraints/Relationships.h", "__Core/Traits/Types/Specifiers.h", "__Core/Traits/Types/References.h", "__Core/Traits/Types/Pointers.h", "__Core/Traits/Types/SignModifiers.h", "__Core/Traits/Types/Operators.h"],
     [("constexpr queries", "__Core/Traits/Constraints"), ("aliases", "__Core/Traits/Types")],
     ["values recorded by a generated program over a type corpus, against <type_traits>"])

prop("C29", "The library builds and behaves the same in every supported configuration",
     "Every public header compiles on its own and in any order, can be included from several translation units of one program, and gives the same observable results under GCC and Clang, every supported language standard from C++11, and every optimisation level.",
     ["configurations"], "headers x compilers x standards x optimisation levels",
     "The suite is built in one configuration, with one translation unit order.",
     ["__Caitlyn.h", "__Caitlyn/Application.h", "__Caitlyn/Types.h", "__Caitlyn/Config.h"],
     [("configuration macros", "__Caitlyn/Config.h"), ("type definitions", "__Caitlyn/Types.h")],
     ["a deterministic workload's event log compared across configurations"])

prop("C30", "Independent use from several threads is race-free",
     "Threads that use distinct objects, or only read a shared String, Char, BigInteger, BigFloat, Expected or JSON document, never race and obtain the same results as a single thread would; this covers formatting, case mapping, classification, parsing and serializing.",
     ["schedules"], "every interleaving of threads using the library without sharing mutable objects",
     "No test runs a second thread; hidden shared state (statics, caches, mutable members) shows only under concurrency.",
     [CU, STR, JP, BI, BF], [("function-local static tables", CU + ":IsDigit"), ("no shared mutable state", STR)],
     ["ThreadSanitizer reports and per-thread results compared with the single-threaded run"])

prop("C31", "Application reports exactly the arguments it was started with",
     "After initialisation with any argument vector, the application object reports exactly those arguments, in order, byte for byte, and keeps reporting them after the original array is changed or freed. It can be initialised once only: every later attempt, with or without arguments, throws and changes nothing. The reported library version is the one the configuration macros define, and the object is the same one throughout the program.",
     ["inputs", "histories"], "every argument vector (any bytes, any number, empty strings) and every order of initialisation attempts, in programs of one or several translation units",
     "No test covers Application.",
     ["__Caitlyn/Application.h", "__Caitlyn/Config.h"], [("single initialisation", "__Caitlyn/Application.h:initialized_"), ("argument copies", "__Caitlyn/Application.h:SetArgs")],
     ["values reported in a real process started with generated arguments"])

prop("C32", "Results do not depend on the locale of the process",
     "Everything the library parses, formats, compares, classifies, counts, reads or writes gives the same result whatever locale the process has chosen with setlocale or std::locale::global: decimal points, digit grouping, boolean words, character classification, case mapping and text encoding of the environment never show in Strings, formatted text, numbers, JSON or files.",
     ["configurations", "inputs"], "all operations under all locales of the process (system locales of several encodings and conventions, and locales made of a program's own facets), set before the library is used",
     "The suite runs in the C locale only.",
     ["__Core/String/Format.h", "__Core/Json/Serializing/JsonSerializer.h", JP, BI, BF, STR],
     [("number formatting", "__Core/String/Format.h"), ("number output", "__Core/Json/Serializing/JsonSerializer.h")],
     ["records of the same workload compared between the C locale and other locales"])

prop("C33", "Running out of memory is reported and costs nothing else",
     "When an allocation fails inside the library, the operation throws std::bad_alloc (or succeeds without that allocation): it never returns a shortened or different result as if nothing had happened, never reports another error instead, never ends the program, and leaks nothing. The objects involved stay valid: they can be assigned and destroyed. Output streams of the user report the failure by their state.",
     ["faults", "inputs"], "every operation of strings, formatting, builders, files, numbers, pointers, Expected and JSON, with any one of its allocations failing",
     "No test makes an allocation fail.",
     [STR, "__Core/String/StringBuilder.h", JP, "__Serializing/Json/Types/JsonData.h", "__Core/Memory/Types/SharedPointer.h", "__Core/Error/Expected.h", BI, BF],
     [("text buffers", STR + ":str"), ("counter allocation", "__Core/Memory/Types/SharedPointer.h:SharedPtr"), ("ownership of members", "__Serializing/Json/Types/JsonData.h:AddItem")],
     ["outcome, record and memory balance of every case with its k-th allocation failing"])

prop("C34", "No operation depends on uninitialised memory or misuses a container",
     "No operation of the library lets an uninitialised value decide a branch, an address, a result or a system call, and none breaks a precondition of the standard library (invalid or singular iterators, past-the-end access, unordered ranges): results are the same whatever the memory held before.",
     ["inputs", "configurations"], "all operations on all inputs, under checked iterators and with any previous content of heap and stack memory",
     "Tests run on memory that is mostly zero and with unchecked iterators.",
     [STR, "__Core/String/Algorithms/Kmp.h", "__Serializing/Json/Types/JsonData.h", JP, BI, BF, "__Core/Error/Expected.h", "__Core/File/File.h"],
     [("union of values", "__Serializing/Json/Types/JsonData.h:DataUnion"), ("storage of Expected", "__Core/Error/Expected.h"), ("digit vectors", BI)],
     ["memcheck and debug-mode reports; records compared between differently filled memories"])

prop("C35", "Observing pointers, SizeOf and numeric limits report exactly what is there",
     "A Ptr gives the object it was made from or assigned, through every history of copies and assignments; comparison is by address, dereferencing a null Ptr throws runtime_error, and no copy, assignment or destruction of a Ptr deletes anything. Reset and Destroy delete exactly the observed object, once, and leave the Ptr with the new object or null. SizeOf gives the size of every type and value in bytes or bits. MinValue, MaxValue and ValueRange give the bounds of every integer type.",
     ["histories", "inputs"], "every history of operations over Ptrs to live objects; all types; all integer types",
     "No test covers them.",
     ["__Core/Memory/Types/RawPointer.h", "__Core/Memory/Utility/SizeCalculation.h", "__Core/Numeric/Utility/Limits.h"],
     [("Reset and Destroy", "__Core/Memory/Types/RawPointer.h:Reset"), ("SizeOf", "__Core/Memory/Utility/SizeCalculation.h:SizeOf"), ("limits", "__Core/Numeric/Utility/Limits.h")],
     ["values, exceptions and destruction events of every operation"])

prop("C36", "A failed system call is reported by the File operation it broke",
     "When opening, writing or reading a File fails in the system (a full disk, an I/O error, a name that cannot be opened), the operation throws: a Write, WriteLine, Append or AppendLine that returns normally has its whole text at the end of the file, a Read that returns normally gives the whole content, and content that was already there is never lost. Interrupted and partial system calls are completed, and the File can be used again once the fault is gone.",
     ["faults", "histories"], "every history of File operations with any of the system calls failing, being interrupted or transferring only part",
     "No test makes a system call fail.",
     ["__Core/File/File.h"],
     [("write path", "__Core/File/File.h:FinishWrite"), ("opening", "__Core/File/File.h:Open"), ("reading", "__Core/File/File.h:Read")],
     ["outcome of every operation under injected failures compared with the bytes really in the file"])

prop("C37", "The numeric type aliases are what their names say in every configuration",
     "Int8 to Int64, UInt8 to UInt64, Byte, SByte, Int and UInt have the stated width and signedness and store every value of their range, SizeType, PtrDiff, IntPtr, IntMax and their counterparts are the standard types of these names, CodePoint is an unsigned type of 32 bits, Char16, Char32, WChar, StdChar, Bool and NullPtr are the language's types, and Float, Double and Decimal are the three floating types in ascending precision; whichever public header, compiler and standard is used.",
     ["inputs", "configurations"], "all aliases; all compilers, standards and public headers",
     "No test looks at them; a wrong width shows only in values beyond it.",
     ["__Caitlyn/Types.h"], [("aliases", "__Caitlyn/Types.h"), ("platform macros", "__Caitlyn/Config.h")],
     ["size, signedness and stored boundary values recorded by a program built in each configuration"])

prop("C38", "Configuration macros describe the build; each header offers what it groups",
     "In every program the configuration macros describe the build they are in: __CAITLYN_HAS_CXX11 to __CAITLYN_HAS_CXX23 are 1 exactly when the compiler implements that standard or a later one (and 0 otherwise), the constexpr, consteval, constinit, noexcept, inline and nodiscard macros of a standard expand to the keyword exactly from that standard on and to nothing before, and the architecture, word size, operating system, compiler and version macros name the actual ones. Each public header, included alone, makes available and usable the standard library facilities of its subject that exist in the standard in use.",
     ["inputs", "configurations"], "all configuration macros and public headers; all compilers and standards",
     "The test suite is built with one compiler in one standard; a wrong threshold or a missing include shows only in others.",
     ["__Caitlyn/Config.h"], [("standard, platform and compiler macros", "__Caitlyn/Config.h"), ("grouping headers", "__Core/Threads.h"), ("grouping headers", "__Core/Utility.h")],
     ["macro values printed by programs in each configuration against the compiler's own macros", "programs using what a header groups, run"])


if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        print(json.dumps(p, ensure_ascii=False))
