from . import prop
from .streams import SEQ, FLT
from .text import ENU

prop("U01", "A queue of fixed capacity is a bounded double-ended queue in every history", """
    After any sequence of operations a vector_queue holds exactly the elements a bounded double-ended queue would: pushing to a full queue replaces the element at the other end, every element is reachable by position, absolute position, head and tail,
    access outside of the queue throws, copies and moves take everything and leave a consistent source, no element leaks, and an operation that fails because an element cannot be copied leaves the queue as it was.""",
    "histories fault_sequences", "every sequence of operations up to the depth on queues of every capacity up to 5, two queues with one failing copy anywhere, long rotations in every capacity up to 65", "The suite has one short scenario with an element count of a power of two or none at all.",
    ["vector_queue.hpp"], [("vector_queue", "vector_queue.hpp:class vector_queue"), ("abs", "vector_queue.hpp:abs")], ["elements", "positions", "live elements"],
    [dict(src="queue.cpp")], "model_checking",
    "one execution = one sequence of operations; states = queue contents and head", "6/7 operations of 8 on capacities 1..5/6; 3/4 operations of 14 on two queues of capacity up to 3 with one fault", technique=FLT,
    note="Pushing to a full queue assigns to the element it replaces; what a failed assignment leaves there is up to the element. A queue of no capacity (moved from) supports everything but pushing.")

prop("U02", "Index mapping and intervals follow their definition for every table", """
    Translating an index between source and destination gives, for every ordered table of mappings and every index, what the table says: the mapped index, or the distance from the nearest mapping before it. A hint only speeds it up: any hint left by any earlier query gives a right answer and stays valid.
    Intervals report size, emptiness, validity, membership and sums as their definition says.""",
    "inputs histories", "every ordered table of up to 5 mappings with repeated indices, every index, every hint and sequences of queries, every pair of interval bounds", "Not tested.",
    ["mapping.hpp", "interval.hpp"], [("dst2src", "mapping.hpp:dst2src"), ("src2dst", "mapping.hpp:src2dst"), ("interval", "interval.hpp:struct interval")], ["translated indices", "hints"],
    [dict(src="mapping.cpp")], "model_checking",
    "one execution = one table or pair of bounds; states = tables", "tables of up to 5/7 mappings 0..2 apart, 4/5 mappings 0..3 apart, regular tables of up to 70", technique=ENU,
    note="Where several mappings share the index asked for, any of them is accepted.")

prop("U03", "Arithmetic helpers are exact and byte order conversion reverses bytes", """
    Checked multiplication and addition give the exact result or throw, never a wrapped one; n*k/q is exact whenever the result fits its type, whatever the product; rotation works for any number of bits;
    byte swapping reverses the bytes of every type and conversion to and from a byte order matches the memory representation.""",
    "inputs", "all pairs and triples of values around every power of two, every small product, every rotation of 200000 words, every pair of bytes in every pair of places", "Not tested.",
    ["math.hpp", "endian.hpp"], [("mul", "math.hpp:mul"), ("muldiv", "math.hpp:muldiv"), ("rol", "math.hpp:rol"), ("byteswap", "endian.hpp:byteswap")], ["results"],
    [dict(src="numbers.cpp")], "model_checking",
    "one execution = one operand or block of operands with all others; states = operands", "331 values around powers of two in all triples", technique=ENU)

prop("U04", "Memory helpers sanitize, own and execute exactly as promised in optimized code", """
    Every block a sanitizing allocator releases and every sanitizing blob is all zero when it is released, also in optimized code and for all containers. A pointer lent to a function by get_ptr() comes back to its owner, whatever the function left in it and also when it throws, and nothing leaks or is deleted twice.
    A scoped_executor executes its second lambda exactly once when the scope is left in any way, and no sooner.""",
    "histories", "every sequence of 5 operations on a sanitized vector, seven container kinds of every size up to 60, blobs of every size up to 160, every callee action, every nesting and way to leave", "Not tested; a debug build also hides that the compiler drops the zeroing.",
    ["memory.hpp", "scoped_executor.hpp"], [("sanitizing_allocator", "memory.hpp:sanitizing_allocator"), ("ref_unique_ptr", "memory.hpp:ref_unique_ptr"), ("scoped_executor", "scoped_executor.hpp:scoped_executor")], ["released memory", "deleted objects", "order of execution"],
    [dict(src="mem.cpp", kind="plain", flags=["-O2"]), dict(src="mem.cpp", harnesses=["out_pointers", "scopes", "vectors_of_struct"])], "model_checking",
    "one execution = one sequence of operations; states = sequences", "5/6 operations of 9 on vectors; containers of up to 60 elements", technique=SEQ,
    note="Clang at -O2; short strings kept inside a basic_string object are not allocated and therefore not claimed.")

prop("U05", "Identifiers and their text convert into each other exactly", """
    The text of an identifier has its fixed form in narrow and wide characters and never exceeds its size, and reading it in any letter case gives the identifier back. Text which is not an identifier is refused: every missing or other separator, digit out of range, or trailing text, and never read past its end.""",
    "inputs", "identifiers with every byte at every pair of places, every text within two edits of five good ones, every replacement of three of the eleven pieces by others", "Not tested.",
    ["uuid.hpp"], [("uuidtostr", "uuid.hpp:uuidtostr"), ("strtouuid", "uuid.hpp:strtouuid")], ["text", "identifiers", "memory accesses"],
    [dict(src="uuid.cpp")], "model_checking",
    "one execution = one text or block of identifiers; states = texts", "two edits of four kinds with 13 characters; three of eleven pieces replaced by one of twelve", technique=ENU,
    note="Groups with a sign, a 0x prefix or no digits are not claimed either way: the parser is lenient about digits.")

prop("U06", "Calendar conversion is exact for every date and timestamp", """
    Day numbers and calendar dates convert into each other exactly for every date from the epoch of the type, with the right day of the week; timestamps convert exactly to and from dates, time of day, time_t, timespec and struct tm, all fields included; formatting a timestamp gives what the C library gives for that moment, whatever the format and length of the result.""",
    "inputs", "every day of years -4712 to 9999, ends of months of every year to a million, every second of ten special days, every day of 30 years in text, every length around the internal buffers", "Not tested.",
    ["chrono.hpp"], [("aosn_date", "chrono.hpp:struct aosn_date"), ("aosn_timestamp", "chrono.hpp:struct aosn_timestamp")], ["dates", "timestamps", "text"],
    [dict(src="chrono.cpp")], "model_checking",
    "one execution = a block of years, hours or texts; states = blocks", "14712 years day by day; a million years at month ends; 864000 seconds", technique=ENU,
    note="Time points before day zero are not claimed. The Windows-only conversions cannot be built here.")

prop("U07", "A Minisign signature is read exactly or refused", """
    Reading a .minisig file yields algorithm, key and signature exactly as they are in its first line that is neither empty nor an untrusted comment, with any line breaks and also when that is the last line without one; and throws when the signature is too short, of another kind, cut, holds characters that are no Base64, or cannot be read.""",
    "inputs fault_sequences", "every arrangement of up to 3 leading lines, signature lengths, kinds and trailing lines, a cut and a read error at every byte, every replacement of every character", "Not tested.",
    ["minisign.hpp"], [("parse_minisig", "minisign.hpp:parse_minisig"), ("untrusted_comment", "minisign.hpp:untrusted_comment")], ["algorithm", "key", "signature", "refusals"],
    [dict(src="minisign.cpp")], "model_checking",
    "one execution = one file with at most one fault; states = file contents", "files of up to 3 leading lines and 7 signature sizes; all cuts; all single replacements", technique=FLT,
    note="How padding in the middle of a line decodes is not claimed.")

prop("U08", "Names of languages and platforms are recognized exactly", """
    Every language code that has a name gets one that leads back to it (or to a code of the same name), well-known codes and names are those Windows publishes, different languages have different names, and a name is recognized in any letter case and with any punctuation for separators, while anything else - shorter, longer or different in any character - is unknown.
    The same goes for platform names, in any letter case; and what is reported about the system is true for the user asking.""",
    "inputs", "all 65536 codes, every name in every letter case of its first letters, everything within one edit by any character and two edits by eighteen, every text of up to 3 characters, four users", "Not tested.",
    ["langid.hpp", "sys_info.hpp", "string.hpp"], [("langid_from_rfc1766", "langid.hpp:langid_from_rfc1766"), ("rfc1766_from_langid", "langid.hpp:rfc1766_from_langid"), ("platform_from_name", "sys_info.hpp:platform_from_name"), ("sys_info", "sys_info.hpp:struct sys_info_t")], ["codes", "names", "platform, elevation and user name"],
    [dict(src="names.cpp")], "model_checking",
    "one execution = one block of codes, or one name with everything near it; states = names", "all codes; 20 million spellings; all texts of up to 3/4 of 48 characters", technique=ENU,
    note="Where several codes share a name, any of them is accepted for it. The membership in administrators is not determined on Linux.")

prop("U09", "What is acquired from a library is released exactly once", """
    Sockets, address lists, cURL handles and lists, locales and the initialization of cURL are released by the function that belongs to them exactly once, when their last owner goes or takes another, through any history of acquiring, moving, exchanging, releasing and exceptions; a refused initialization and a failed close are reported, with their error, and leave nothing to be released.
    A locale of one category is the locale asked for in that category.""",
    "histories fault_sequences", "every sequence of operations on two owners of each kind, with up to two failing calls; every order of three initializations with up to three refused; every category with every name", "Not tested.",
    ["socket.hpp", "curl.hpp", "locale.hpp", "system.hpp"], [("socket", "socket.hpp:struct socket_traits"), ("addrinfo", "socket.hpp:freeaddrinfo_delete"), ("curl", "curl.hpp:class curl_initializer"), ("locale", "locale.hpp:class locale")], ["calls of the libraries"],
    [dict(src="resources.cpp", link=["-Wl,--wrap=" + s for s in "freeaddrinfo freelocale close".split()])], "model_checking",
    "one execution = one history; states = which owners hold something", "5/6 operations of 10 to 14", technique=FLT,
    note="The libraries are replaced by stand-ins which keep account and can refuse; the C library's locales are real in the comparison of categories.")

prop("U10", "Running out of memory is reported and breaks nothing", """
    When an allocation fails at any point, once or from then on, the operation under way reports it - by an exception or by a stream that has failed - or gives the result it would have given otherwise; it never gives a wrong one; a thread that cannot be started is reported just so. What was held, written or appended to before stays as it was, nothing is left half-done that is later taken for done,
    the objects remain usable and right once there is memory again, and everything allocated is released exactly once when they go.""",
    "fault_sequences", "every allocation of every history of up to 3 operations refused, once or with all that follow: memory files, FIFOs, caches, buffers, compressors, WAV and record readers, every parser on short texts, string and charset functions; and every refused thread, under every schedule, where threads are started", "Not tested: no test makes an allocation fail.",
    ["stream.hpp", "zlib.hpp", "parser.hpp", "string.hpp", "unicode.hpp", "chrono.hpp", "wav.hpp", "idrec.hpp", "vector_queue.hpp", "html.hpp", "sgml.hpp"], [("memory_file", "stream.hpp:class memory_file"), ("fifo", "stream.hpp:class fifo"), ("zlib_writer", "zlib.hpp:class zlib_writer"), ("vappendf", "string.hpp:vappendf"), ("charset_encoder", "unicode.hpp:class charset_encoder"), ("basic_parser", "parser.hpp:class basic_parser"), ("vector_queue", "vector_queue.hpp:class vector_queue")], ["results", "state of streams", "exceptions", "allocations"],
    [dict(src="oom.cpp", link=["-lz"]), dict(src="oom_text.cpp"), dict(src="threads_oom.cpp", kind="sched")], "model_checking",
    "one execution = one history with one set of refused allocations; states = histories", "histories of 2/3 operations; one refused allocation, or all from one on", technique=FLT,
    note="Operations that are noexcept by declaration and have nothing to report with end the program; they are not claimed.")
