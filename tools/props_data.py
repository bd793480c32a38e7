INP, HIST, FAULT, SCHED, CONF = "inputs", "histories", "fault_sequences", "schedules", "configurations"

p("C01", "Character search returns exactly the first / last occurrence",
  "For every buffer and length (or C string) and every character, the find functions return the smallest index at which the character occurs, and the find-last functions the largest, within the given length; they return SIZE_MAX exactly when it does not occur, the pointer is null or the length is zero. They never read outside the given range and modify nothing.",
  [INP], "every byte buffer of every length, every delimiter byte, null pointers",
  "Tests use a handful of short literals; first/last among all positions of an unbounded buffer, bytes >= 0x80 and non-terminated buffers are not sampled.",
  ["src/find.c", "include/rcutils/find.h"], [("linear scan / memrchr", "src/find.c")])

p("C02", "Splitting yields exactly the non-empty tokens, in order",
  "Splitting a string on a delimiter yields, in order, exactly the maximal non-empty delimiter-free substrings, each as its own NUL-terminated copy; a null or empty string yields an empty array, and an invalid allocator or a null array is refused. Splitting on the last delimiter, on input without adjacent delimiters and not made of delimiters only, first drops one leading and one trailing delimiter and then yields the text before the last remaining delimiter and the text after it, or all the remaining text when none remains.",
  [INP], "every string and delimiter (any length, any runs of leading, trailing and repeated delimiters)",
  "Tests use about a dozen literals; leading/trailing/repeated delimiters interact with array sizing and copy lengths for all positions.",
  ["src/split.c", "include/rcutils/split.h"], [("token counting and copying loops", "src/split.c")])

p("C03", "Substring replacement replaces every occurrence, left to right",
  "Replacing a non-empty substring in a string yields a newly allocated string in which every non-overlapping occurrence, found left to right, is replaced by the replacement text and everything else is unchanged. If there is no occurrence the result equals the input, and if memory cannot be allocated the result is null and nothing is leaked.",
  [INP, FAULT], "all strings, patterns and replacements, any number of occurrences, allocation failing at any point",
  "Tests use a few literals; position-cache growth and length arithmetic depend on the number of matches and relative lengths.",
  ["src/repl_str.c", "include/rcutils/repl_str.h"], [("match cache + length arithmetic", "src/repl_str.c")])

p("C04", "Duplicated and formatted strings are exact and bounded",
  "Duplicating a string (or its first n bytes) returns a fresh NUL-terminated copy of exactly those bytes, or null on null input or allocation failure. Formatting into a fresh string returns the complete formatted text, or its first limit-1 bytes when a limit is given, and null on allocation or formatting failure; bounded formatting into a caller's buffer never writes past the buffer and reports the length the full text needs.",
  [INP, FAULT], "all strings, lengths and limits; allocation or formatter failing",
  "Tests cover a few literals and limits; off-by-one in limit/terminator handling shows only at exact boundary sizes.",
  ["src/strdup.c", "src/format_string.c", "src/snprintf.c"], [("measure, allocate, format", "src/format_string.c"), ("copy", "src/strdup.c")])

p("C05", "SHA-256 digest equals FIPS 180-4 for every message and chunking",
  "For every message of any byte length and every way of cutting it into successive update calls, init, update and final produce the SHA-256 digest defined by FIPS 180-4. Updates with zero bytes change nothing.",
  [INP, HIST], "all messages, all chunkings",
  "Tests hash a few fixed messages; padding corner lengths, chunk boundaries and the bit counter carry need every length and split.",
  ["src/sha256.c", "include/rcutils/sha256.h"], [("block buffering, padding and compression", "src/sha256.c")],
  [("ctx", "partial block, byte and bit counters, chaining value", "include/rcutils/sha256.h")])

p("C06", "Array list is a faithful growable sequence of fixed-size elements",
  "An array list behaves as a finite sequence of fixed-size elements: add appends a copy, set overwrites exactly one position, get copies out exactly that element, remove deletes exactly one position and shifts the rest down by one, and size reports the length. Out-of-range indexes and uninitialized lists are refused without any change, growth preserves every element, a size that cannot be represented is a failed allocation, and a failed allocation leaves the list unchanged.",
  [INP, HIST, FAULT], "every list state (any size/capacity), element size, index and operation",
  "Tests use few elements; shifting and growth must be right for every index, size, capacity and element size, and under failing reallocation.",
  ["src/array_list.c", "include/rcutils/types/array_list.h"], [("capacity growth and memmove/memcpy index arithmetic", "src/array_list.c")],
  [("impl", "capacity, size, element size, storage", "src/array_list.c")])

p("C07", "Hash map is a faithful finite map with user-supplied hash and comparison",
  "A hash map behaves as a finite map under the supplied key comparison, for every hash function consistent with it, colliding ones included: set inserts or overwrites exactly one entry, get returns the bytes last set for an equal key or reports not found, unset removes exactly that key, key_exists and size agree with the map's content. Growing never loses, duplicates or alters an entry, the reported capacity is a power of two not below the requested one, and a failed operation leaves the existing entries in place. Initialising an initialised map is refused, and a capacity that cannot be represented is a failed allocation.",
  [INP, HIST, FAULT], "all key/value bytes and sizes, hash functions, load levels, operation histories, allocation failures",
  "Tests insert a few keys; collisions, growth boundaries and failure mid-operation need all histories.",
  ["src/hash_map.c", "include/rcutils/types/hash_map.h"], [("bucket lookup, rehash on growth", "src/hash_map.c")],
  [("buckets", "each entry lives in bucket hash & (capacity-1)", "src/hash_map.c")])

p("C08", "Hash map iteration visits every entry exactly once",
  "Starting from no previous key and passing back each returned key, iteration over an unmodified hash map returns every entry exactly once, with its stored key and data, and then reports that no more entries exist. Passing a previous key that is not in the map is reported as not found.",
  [INP, HIST], "all map contents and bucket distributions",
  "Tests iterate few entries; bucket boundaries, empty buckets and collisions are sampled only.",
  ["src/hash_map.c"], [("next-entry search across buckets", "src/hash_map.c")])

p("C09", "String map is a faithful finite map from strings to strings",
  "A string map behaves as a finite map from strings to strings: setting a key inserts or overwrites exactly that key with copies of key and value, unset removes exactly that key, get/getn/key_exists/key_existsn find exactly the key equal to the given (prefix-limited) string, and size counts the keys. set_no_resize refuses a new key when the map is full, reserve and automatic growth keep all entries, the reserved capacity never drops below the size, and iteration visits each key exactly once; failed operations leave existing entries unchanged.",
  [INP, HIST, FAULT], "all keys, values, histories, capacities, allocation failures",
  "The string_map tests cannot even be run here; keys sharing prefixes and capacity boundaries are only sampled.",
  ["src/string_map.c", "include/rcutils/types/string_map.h"], [("slot search, growth", "src/string_map.c")],
  [("impl", "parallel key/value arrays, capacity, size", "src/string_map.c")])

p("C10", "String array: sized lifecycle, lexicographic comparison and sort order",
  "A string array of n elements starts with n null entries; fini frees every entry and the array; resizing keeps the common prefix of entries, frees the dropped ones and nulls the new ones, leaving the array unchanged if it fails. Array comparison is lexicographic by element then by length (a null entry met before a difference is an error, arrays without data are refused), and the sort comparator orders strings by content with null entries last.",
  [INP, HIST, FAULT], "all sizes, contents and allocation failures",
  "Tests use arrays of 2-8 literals; comparison and resize must hold for every length pair, and under failing allocations.",
  ["src/string_array.c", "include/rcutils/types/string_array.h"], [("element loops", "src/string_array.c")])

p("C11", "Char array: contents preserved across resize, append and formatting",
  "A char array keeps its existing contents across capacity changes (up to the smaller size) and never shrinks through expand-as-needed; copying or appending a string leaves exactly the expected text with its terminator and a length counting that terminator; formatting stores the complete formatted text, growing when needed. Appending at most n bytes of a string stops at the string's end. A buffer that the array does not own is never freed or reallocated (growing copies it into an owned one, terminating the last copied byte), and on allocation failure the error is reported and the array can still be finalized safely.",
  [INP, HIST, FAULT], "all capacities, owned or borrowed buffers, texts, format results, allocation failures",
  "Tests use fixed strings and capacities; length/terminator/capacity interactions and ownership transitions need all combinations.",
  ["src/char_array.c", "include/rcutils/types/char_array.h"], [("resize with ownership flag", "src/char_array.c")],
  [("char array", "buffer, owns_buffer, length, capacity", "include/rcutils/types/char_array.h")])

p("C12", "Byte array: resize keeps contents and bounds the length",
  "A byte array initialised with a capacity owns a buffer of that many bytes and zero length; resizing to a non-zero size keeps the contents up to the smaller size and never leaves the length above the capacity. A zero size is refused without change; when a resize cannot get memory the error is reported and the array is left empty (old buffer released, sizes zero) and safe to finalize; fini frees the buffer.",
  [INP, HIST, FAULT], "all capacities, lengths, contents and allocation failures",
  "Tests use one or two sizes.",
  ["src/uint8_array.c", "include/rcutils/types/uint8_array.h"], [("resize", "src/uint8_array.c")])

p("C13", "Time points are rendered exactly as decimal nanoseconds, seconds and dates",
  "For every time point, the nanoseconds string is the decimal value zero-padded to 19 digits (with a minus sign when negative), the seconds string is the value divided by 10^9 with exactly nine fractional digits, and for a non-negative time point the date string shows the local calendar date and time of its second with zero-padded milliseconds. Output is truncated to the caller's buffer, always terminated, and never written past it.",
  [INP], "all 2^64 time points and all buffer sizes",
  "Tests sample a handful of time points and sizes and are not run here.",
  ["src/time.c", "include/rcutils/time.h"], [("division/modulo and bounded formatting", "src/time.c")])

p("C14", "Clocks report the operating system's time as non-negative nanoseconds",
  "Reading the system or steady clock returns exactly the seconds and nanoseconds of the corresponding operating-system clock combined into a nanosecond count. If the clock fails, or its value is negative, an error is reported and the output is left unchanged; a null output is refused.",
  [INP, FAULT], "all values and failures of the OS clock",
  "A test can only read the real clock, whose values and failures it cannot choose.",
  ["src/time_unix.c"], [("clock_gettime and unit conversion", "src/time_unix.c")])

p("C15", "Error state: message, file and line are kept exactly, bounded and resettable",
  "After setting an error, the error is set and the error state and string hold the message, file and line, each truncated to its documented maximum and always terminated, as 'message, at file:line'. Resetting clears it so that the error string says that the error is not set; setting again overwrites the previous error, and no input length can write outside the fixed-size state.",
  [INP, HIST], "all messages and paths of any length, line numbers, set/get/reset histories",
  "Error-handling tests are not run here and sample few lengths; truncation boundaries and stale cached strings need every length and history.",
  ["src/error_handling.c", "src/error_handling_helpers.h", "include/rcutils/error_handling.h"], [("bounded copy and caching", "src/error_handling.c")],
  [("thread-local error", "set flag, formatted flag, buffers", "src/error_handling.c")])

p("C16", "A logger's effective level is that of its nearest configured ancestor",
  "The effective level of a logger is its own level if set, otherwise that of its nearest ancestor in the dot-separated hierarchy with a level set, otherwise the default level; setting a level changes the outcome for exactly that logger and its descendants without their own setting, including lookups made before. A logger is enabled for a severity exactly when the severity is at least its effective level, and setting a level that fails changes no logger's level.",
  [INP, HIST], "all logger names, hierarchies and histories of set/get calls",
  "Logging tests are not run here; the level cache makes the outcome depend on the history of earlier lookups and settings.",
  ["src/logging.c"], [("ancestor walk with cached levels in a hash map", "src/logging.c")],
  [("severity map", "user-set and cached levels per logger name", "src/logging.c")])

p("C17", "The log output format is parsed and substituted exactly",
  "Formatting a log message replaces every known {token} of the configured format by its value, translates the documented escape sequences, and copies all other text, unknown tokens and unmatched braces literally and in order. The result is complete and terminated whatever the lengths of name, message and location (the format itself is limited to 2047 characters), a message of unknown severity is an error, and repeated initialisation with a new format leaves no trace of the old one.",
  [INP, HIST], "all format strings, messages, names, locations and severities",
  "Logging tests are not run here and sample a few formats; token boundaries, escapes and buffer growth need every format.",
  ["src/logging.c"], [("format parser and token handlers", "src/logging.c")],
  [("handler list", "parsed output format", "src/logging.c")])

p("C18", "Log calls reach the installed handler exactly when enabled, unaltered",
  "A log call invokes the installed output handler exactly once, with the caller's location, severity, name, format and arguments and the time of the call, if the logger is enabled for the severity, and not at all otherwise. Installing a handler or default level takes effect for the next call, reading them back returns what was set, and shutdown followed by initialisation restores the defaults.",
  [INP, HIST], "all severities, names, levels, handlers and call histories",
  "Logging tests are not run here; level/handler/history combinations are only sampled.",
  ["src/logging.c"], [("rcutils_log / rcutils_log_internal dispatch", "src/logging.c")])

p("C19", "Severity names and numbers convert to each other, case-insensitively",
  "A severity string is accepted exactly when it equals, ignoring case, one of the severity names, and yields that severity; anything else is refused with an error and no output change. Null arguments are refused and no memory is leaked whatever the string.",
  [INP, FAULT], "all strings, allocation failures",
  "Tests try a few names.",
  ["src/logging.c"], [("severity name table", "src/logging.c")])

p("C20", "The console handler writes one complete line to the configured stream",
  "The console output handler writes the formatted message, followed by a newline, to the stream configured by the environment (standard error by default), surrounding it with the severity's colour only when colours are on, whatever the length of the message. Messages longer than the internal buffer are neither truncated nor leaked.",
  [INP, CONF], "all messages, severities and environment settings",
  "Tests check a few messages through capture.",
  ["src/logging.c"], [("stack buffer with heap growth", "src/logging.c")])

p("C22", "Command-line option lookup finds the option and its argument",
  "An option exists exactly when some argument in the range equals it; getting an option returns the argument that directly follows its first occurrence, or null if it is absent or last. Only arguments inside the given range are read.",
  [INP], "all argument vectors and options",
  "Tests use one or two argument vectors.",
  ["src/cmdline_parser.c"], [("scan", "src/cmdline_parser.c")])

p("C23", "Environment access reads, writes and unsets exactly the named variable",
  "Reading a variable yields its value, or the empty string when it is not set; setting a variable to a value stores exactly that value, overwriting any old one only if asked to; setting it to null removes it. Null or otherwise invalid names are refused with an error, failures of the environment are reported, and the home directory is the value of HOME or null when unset or empty.",
  [INP, FAULT], "all names and values, environment failures",
  "Tests try a few names.",
  ["src/env.c"], [("getenv/setenv wrappers", "src/env.c")])

p("C24", "Path predicates and path building agree with the filesystem and the text",
  "Existence, directory, file, readable and writable predicates (the last two by the owner's permission bits) answer exactly what the file's status says, and false when the status cannot be read. Joining two paths yields left, one separator and right; native conversion replaces every separator; home expansion replaces only a leading '~'; directory creation succeeds on a new or an already existing directory given by an absolute path and fails otherwise; the size of a regular file is its status' size.",
  [INP, FAULT], "all paths and all results of the underlying system calls",
  "Filesystem tests are not run here and depend on the actual disk; status/failure combinations cannot be sampled.",
  ["src/filesystem.c"], [("stat wrappers and string building", "src/filesystem.c")])

p("C25", "Directory iteration and directory size cover every entry and release resources",
  "Iterating a directory yields each of its entry names exactly once, in the order the system reports them, and releases the directory and its memory at the end whatever fails. The size of a directory is the sum of the sizes of its regular files, down to the given depth, counting subdirectories only as far as the depth limit allows and not following symbolic links.",
  [INP, FAULT], "all directory contents, depths and failures of the underlying calls",
  "Tests use a small fixed tree and are not run here.",
  ["src/filesystem.c"], [("opendir/readdir iterator and depth-limited walk", "src/filesystem.c")])

p("C26", "Shared library handles: load, lookup and unload are consistent",
  "Loading a library either fills the handle with the loaded library and its path or leaves the handle unloaded and releases everything; symbol lookup and has-symbol agree with the loader and refuse unloaded handles; unloading releases the library and path exactly once and leaves a reusable handle. The platform library name is 'lib<name>.so' (or the debug variant where defined) and is refused when it does not fit the buffer.",
  [INP, HIST, FAULT], "all names, buffer sizes, loader results and call histories",
  "Tests load one dummy library; loader failures and boundary buffer sizes are not sampled.",
  ["src/shared_library.c"], [("dlopen/dlsym/dlclose wrappers", "src/shared_library.c")])

p("C27", "Process identity: executable base name and process id",
  "The executable name is the last path component of the running program's invocation name, as a fresh NUL-terminated string, or null if the allocator is invalid or allocation fails; an empty invocation name yields '.'. The process id is the one reported by the operating system.",
  [INP, FAULT], "all invocation names, allocation failures",
  "A test only sees its own name.",
  ["src/process.c"], [("basename copy", "src/process.c")])

p("C28", "Allocator validity and reallocate-or-free",
  "An allocator is valid exactly when all four of its functions are set. Reallocate-or-free returns the resized block with its contents, and when the reallocation fails it frees the original block exactly once and returns null; the default allocator forwards to the C heap and zero-allocation yields zeroed memory.",
  [INP, FAULT], "all allocators, sizes and failures",
  "The allocator tests are not run here.",
  ["src/allocator.c"], [("default allocator and reallocf", "src/allocator.c")])

p("C29", "Fault-injection countdown fails exactly once, at the requested point",
  "After the count is set to n >= 0, exactly the (n+1)-th fault point reached reports a failure and the points before it do not; afterwards the count stays at its terminal value until set again, and a negative count never fails. This holds for every interleaving of threads passing fault points: no decrement is lost and no two of them observe the same count.",
  [SCHED, HIST, INP], "all counts and all interleavings of concurrent fault points",
  "Tests run single-threaded with small counts.",
  ["src/testing/fault_injection.c"], [("atomic compare-exchange loop", "src/testing/fault_injection.c")],
  [("g_rcutils_fault_injection_count", "remaining fault points", "src/testing/fault_injection.c")])

p("C30", "Only the supplied allocator is used and nothing leaks, whatever fails",
  "Every function that takes an allocator obtains and returns memory only through it, passing its state pointer, and never frees a block twice or keeps using a freed one. Whichever allocation fails, the failure is reported as bad-alloc or the documented null/false result, everything allocated during the failed call is released, and objects that existed before stay valid and can be finalized.",
  [FAULT, INP], "every allocation request of every such function failing or not, all inputs",
  "Tests inject only the first failure or none.",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/split.c", "src/repl_str.c", "src/format_string.c", "src/strdup.c", "src/filesystem.c", "src/shared_library.c", "src/process.c"],
  [("error paths", "every function taking rcutils_allocator_t")])

p("C31", "Invalid arguments are refused without effect",
  "Passing a null pointer, an invalid allocator, an uninitialised or already initialised object, or a zero size where the documentation forbids it is answered with the documented invalid-argument (or equivalent null/false) result. Such a call never crashes and changes no caller-visible object.",
  [INP], "every public function of the data structures, every subset of invalid arguments",
  "Tests try one invalid argument at a time for some functions.",
  ["src/array_list.c", "src/hash_map.c", "src/string_map.c", "src/string_array.c", "src/char_array.c", "src/uint8_array.c", "src/split.c", "src/env.c", "src/shared_library.c", "src/filesystem.c", "src/time.c", "src/time_unix.c"],
  [("argument checks at the entry of every public function", "src/*.c")])

p("C32", "Case-insensitive comparison, locale-free classification, sorting, strerror",
  "Case-insensitive comparison reports the sign of comparing both strings (up to n bytes) letter case ignored, and refuses null arguments; the locale-free alphanumeric test accepts exactly [0-9A-Za-z]; sorting refuses null arguments and otherwise leaves an ordered permutation of the input. The error-message function fills the caller's buffer with a terminated message and never writes past it.",
  [INP], "all strings, characters, arrays and buffer sizes",
  "Tests sample a few strings.",
  ["src/strcasecmp.c", "src/qsort.c", "src/strerror.c", "include/rcutils/isalnum_no_locale.h"], [("libc wrappers", "src/strcasecmp.c")])

p("C21", "Conditional logging macros fire exactly when their condition says",
  "The plain macros log every time, the ONCE variants exactly the first time, SKIPFIRST all but the first, EXPRESSION and FUNCTION exactly when the expression or function yields true, and THROTTLE only when at least the given duration has passed since the last logged call (for the first call: since the clock's zero; when the clock cannot be read, always). Variants combining conditions log exactly when both conditions hold, and a NAMED variant passes the given name. Conditions are evaluated only when the logger is enabled for the severity; in the SKIPFIRST_THROTTLE variants the first unthrottled call is the skipped one and starts the waiting time; macros below the compile-time minimum severity do nothing at all.",
  [INP, HIST], "all histories of calls, expression values and clock values",
  "Tests exercise each macro once or twice with a real clock.",
  ["resource/logging_macros.h.em", "rcutils/logging.py"], [("condition prefix/suffix macros", "resource/logging_macros.h.em")])

p("C33", "Error state and logging are isolated per thread / safe under concurrency",
  "The error state set in one thread is never observable in another thread, for every interleaving.",
  [SCHED], "all interleavings of threads setting and reading errors",
  "Tests run single-threaded.",
  ["src/error_handling.c"], [("thread-local storage", "src/error_handling.c")])

NA = {
    "C33": "isolation between threads is provided by the compiler/OS thread-local storage class, not by code a contract can describe; CBMC's contracts (like the other installed deductive verifiers for C) have no thread-local/scheduler semantics to discharge it against",
}
