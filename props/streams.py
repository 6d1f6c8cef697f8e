from . import prop

SEQ = ("exhaustive enumeration of all operation sequences up to a depth on the real class, "
       "every step compared with a reference model (explicit-state, stateless replay)")
FLT = "exhaustive enumeration of operation sequences x environment answers (faults, short transfers) up to a deviation bound"

prop("S01", "A memory file behaves as a seekable byte array", """
    A memory-backed file is observationally a growable array of bytes with a cursor: every read, write, seek, skip,
    truncate, load and save returns the data, counts, positions, sizes and end-of-file state that the array model defines.
    Bytes never written that a write or truncation past the end brings into existence read as zero, and no operation reads
    or writes outside the allocated buffer or returns stale data.""",
    "histories inputs", "every sequence of operations up to the bound, for owned, preallocated and caller-supplied buffers, with offsets and lengths before, at and past the end",
    "The suite never uses the class beyond one straight-line copy; positions past the end, writes after a truncation and string reads at EOF only show in particular histories.",
    ["stream.hpp"], [("memory_file", "stream.hpp:class memory_file")], ["public methods and state() of memory_file, AddressSanitizer"],
    [dict(src="memory_file.cpp"), dict(src="memory_file.cpp", flags=["-DCHECK_STREAM_STATE=0"], harnesses=["memory_file_ops"]), dict(src="far.cpp", harnesses=["memory_file_far"])], "model_checking",
    "one execution = one operation history; states = distinct (content, position, state) of the model", "depth 4 (quick) / 5 (thorough) over ~25 operations on files of 0..9 bytes; typed get/set/inline accessors over all offsets 0..size+2; 3/4 operations with sizes around multiples of the 64 KiB blocks; reservations no memory can hold",
    technique=SEQ)

prop("S03", "A cached file is indistinguishable from the file it caches", """
    Any sequence of reads, writes, seeks, skips, truncations, flushes and size queries through the block cache returns the same
    data, counts, end-of-file results, positions and sizes as the same sequence on the uncached file.
    After a flush or close the underlying file holds exactly the bytes the uncached file would hold, and a cached file can be closed and reopened without losing or inventing data.""",
    "histories inputs", "every operation sequence up to the bound, for several cache block sizes, file lengths around block boundaries and read-only or writable files",
    "Block-boundary, EOF-block and write-then-seek combinations number in the thousands; the suite reads and writes one cached file sequentially.",
    ["stream.hpp"], [("block cache", "stream.hpp:class cache"), ("cached_file", "stream.hpp:class cached_file")],
    ["public methods of cache/cached_file and the content of the file below"],
    [dict(src="cache.cpp", harnesses=["cache_ops", "cached_file_reopen", "cache_times"]), dict(src="far.cpp", harnesses=["cache_far"])], "model_checking",
    "one execution = one operation history; states = distinct (content, position, status) of the model", "depth 4/5 (cache), 5/6 (reopen), block sizes 1..4, files of 0..6 bytes", technique=SEQ)

prop("S04", "A cached file never loses data silently when the file below fails", """
    When the underlying file fails or transfers short during any operation, the cache reports the failure in its state no later than the flush or close that
    follows, and never reports success for bytes that are not in the file.
    Bytes it does return as read are the bytes of the file, and after the fault clears it keeps behaving as a file with the content that was acknowledged.""",
    "fault_sequences histories", "every operation sequence up to the bound with every placement of up to the bounded number of read, write, seek and truncate failures of the file below",
    "The suite never injects an I/O error; each (operation, failing call) pair is a separate path.",
    ["stream.hpp"], [("cache load/write-back", "stream.hpp:class cache")], ["state() and results of the cache, content of the file below"],
    [dict(src="cache.cpp", harnesses=["cache_faults"])], "fault_enumeration",
    "one execution = one history with one placement of faults; non-trivial: at least one fault fired", "depth 4/5, at most 2/3 faults", technique=FLT)

prop("S05", "Buffered streams deliver the unbuffered byte stream", """
    For every pair of buffer sizes (zero included) and every sequence of reads, writes and flushes, a buffering wrapper hands out exactly the bytes of its source in order and delivers to its sink
    exactly the bytes written in order, whatever short transfers the other side makes.
    After a flush everything written has reached the sink, and an error or end of file of the wrapped stream is reported by the wrapper rather than swallowed.""",
    "histories fault_sequences", "every operation sequence up to the bound x buffer sizes x short transfers and errors of the wrapped stream",
    "The suite wraps one file with one buffer size and never sees a short transfer.",
    ["stream.hpp"], [("buffer", "stream.hpp:class buffer"), ("buffered_sys", "stream.hpp:class buffered_sys")], ["bytes and state() at both ends"],
    [dict(src="buffer.cpp"), dict(src="far.cpp", harnesses=["buffer_far"])], "model_checking",
    "one execution = one history with one sequence of short transfers; states = distinct (delivered, consumed) of the model", "buffer sizes 0..4, depth 4..6, up to 2/3 short transfers", technique=FLT)

prop("S06", "Limiters and windows expose exactly the permitted part of a stream", """
    A limiter lets through exactly the configured number of bytes in each direction and then reports end of file for reads and failure for writes; a window additionally hides exactly the configured leading bytes.
    Neither ever transfers a byte outside its range, consumes its budget for bytes not transferred, or misreports the wrapped stream's errors.""",
    "histories inputs", "every sequence of reads and writes up to the bound x all small offsets and limits (unlimited included) x short transfers below",
    "No test covers these classes at all.",
    ["stream.hpp"], [("limiter", "stream.hpp:class limiter"), ("window", "stream.hpp:class window")], ["bytes transferred and state() at both ends"],
    [dict(src="window.cpp", harnesses=["limiter_ops", "window_ops", "window_faults", "window_read_faults"]), dict(src="far.cpp", harnesses=["limits_far"])], "model_checking",
    "one execution = one history; states = distinct (remaining budget, position) of the model", "depth 4/5, limits 0..4 and unlimited, offsets 0..4", technique=FLT)

prop("S07", "A file window is a file confined to its range", """
    A window on a file behaves as a file of its own whose position zero is the window start: reads, writes, seeks and size queries act within the window and agree with the same operations on an array of the window's bytes.
    It never reads, changes or grows the file outside the window.""",
    "histories", "every operation sequence up to the bound for windows at several offsets and lengths, including ones that end past the end of the file",
    "No test covers this class.",
    ["stream.hpp"], [("file_window", "stream.hpp:class file_window")], ["public methods of file_window, content of the file below"],
    [dict(src="window.cpp", harnesses=["file_window_ops", "file_window_edges", "file_window_locks"]), dict(src="far.cpp", harnesses=["file_window_far"])], "model_checking",
    "one execution = one history; states = distinct (content, position) of the model", "depth 4/5, files of 6 bytes, offsets and lengths 0..4", technique=SEQ)

prop("S08", "An in-memory pipe delivers bytes first-in first-out", """
    Whatever mix of writes, reads and size queries is made, an in-memory pipe returns every written byte exactly once, in order, returns at most what is stored, reports end of file exactly when it is asked for data and holds none,
    and reports its exact fill. Memory is released without corruption.""",
    "histories", "every sequence of reads and writes of small sizes up to the bound",
    "No test covers this class; node-boundary cases depend on the history.",
    ["stream.hpp"], [("fifo", "stream.hpp:class fifo")], ["public methods of fifo, AddressSanitizer"],
    [dict(src="fifo.cpp")], "model_checking",
    "one execution = one history; states = distinct fill patterns of the model", "depth 6/8, transfers of 0..4 bytes", technique=SEQ)

prop("S09", "Typed serialisation round-trips and truncation is always noticed", """
    Every value written to a stream with the typed writers or insertion operators (integers, floats, strings in every length-prefix width, wide strings, vectors, sets, GUIDs, byte order variants) is read back equal by the matching readers, leaving the stream exactly at the end of the value.
    If the stream ends anywhere inside the encoding, or a write fails, the stream state says so and no partially read value is reported as complete.""",
    "inputs fault_sequences", "all listed types x boundary values x every truncation point x every failing write",
    "The suite round-trips a handful of values through one file and never truncates.",
    ["stream.hpp", "endian.hpp"], [("typed I/O", "stream.hpp:class basic"), ("operators", "stream.hpp:operator<< / operator>>")], ["values and state() after reading"],
    [dict(src="typed.cpp")], "fault_enumeration",
    "one execution = one typed value with one truncation or fault point; non-trivial: the truncation or fault lies inside the encoding", "boundary values per type, strings of 0..5 units and the prefix maxima, every cut", technique=FLT)

prop("S10", "Stream conveniences lose and invent nothing", """
    Reading lines (narrow, wide or converted on the fly), skipping, reading the remainder, reading arrays, repeating a byte, copying one stream to another and detecting the byte order mark
    consume exactly the bytes they account for and return exactly the data of the stream, whatever pieces the stream delivers it in.
    End of file and errors met on the way are in the stream state, never taken for data or for success.""",
    "inputs fault_sequences", "every small text over the critical characters and every size around the internal block sizes x every placement of short transfers and of an error",
    "The suite reads lines of one well-formed file from a stream that never cuts a transfer short.",
    ["stream.hpp"], [("basic helpers", "stream.hpp:class basic"), ("basic_file helpers", "stream.hpp:class basic_file")], ["results, position and state() of the stream"],
    [dict(src="helpers.cpp"), dict(src="far.cpp", harnesses=["conveniences_far"])], "model_checking",
    "one execution = one input with one placement of short transfers; states = distinct (data, position) of the reference", "texts of up to 6..9 (quick) / 7..11 (thorough) units, block sizes 0..131073, up to 1..4 short transfers", technique=FLT)

prop("S02", "A file behaves as the operating system's file", """
    Opening honours every combination of access, disposition and append: what must exist, be created, be truncated or be preserved is, the position starts at the right end, and a refused open changes nothing on disk.
    From then on plain and cached files read, write, seek, truncate, flush, close and reopen exactly as a byte array with a cursor would, and the file on disk holds that array whenever nothing is pending;
    byte-range locks cover exactly the range asked for and time stamps set are the time stamps read.""",
    "histories inputs", "every access mode x disposition x initial file, and every operation sequence up to the bound on a real file, read-write and read-only, plain and cached with several block sizes",
    "The suite opens files in two or three modes and writes them straight through; it never reopens, locks, or uses a read-only file.",
    ["stream.hpp", "system.hpp"], [("file", "stream.hpp:class file"), ("cached_file", "stream.hpp:class cached_file"), ("handle", "system.hpp:class basic_sys_object")],
    ["public methods and state() of file and cached_file", "the file on disk, read through a descriptor of the checker's own", "locks as another open file description sees them"],
    [dict(src="osfile.cpp"), dict(src="far.cpp", harnesses=["file_far"])], "model_checking",
    "one execution = one operation history on a real file; states = distinct (content, position) of the model",
    "sequences of 4 (quick) / 5 (thorough) of 14 operations (with 4 seek targets each), files of 0, 3, 6 bytes, cache blocks of 1..4 bytes; locks: 3/4 operations with offsets and lengths 0..3",
    assumptions=["Linux file semantics; read-only access combined with truncation on opening is left out (not defined by POSIX)"], technique=SEQ)

WRAPS = ["-Wl,--wrap=" + s for s in "read write close fsync lseek64 ftruncate64 lockf64 dup recv send open open64".split()]

prop("S11", "Operating system failures reach the caller and transferred bytes are counted", """
    Whatever pieces the operating system transfers data in and whichever of its calls fail, streams over files, pipes and sockets, buffered and cached ones included, return exactly the bytes that were transferred,
    report every failure in the stream state (or by exception on destruction) and report nothing that did not happen.
    As long as no failure was reported, what was written and flushed, closed, copied, loaded or saved is completely there.""",
    "fault_sequences histories", "every operation sequence up to the bound x every placement of failing and short system calls up to the bound",
    "The suite runs on a file system where nothing fails or transfers short.",
    ["stream.hpp", "system.hpp"], [("OS streams", "stream.hpp:class basic_sys"), ("socket", "stream.hpp:class socket"), ("file", "stream.hpp:class file"), ("load/save", "stream.hpp:class memory_file")],
    ["results and state() of the streams", "the content the simulated kernel holds"],
    [dict(src="osio.cpp", link=WRAPS, harnesses=["sys_stream", "socket_stream", "sys_far", "socket_far", "file_calls", "buffered_sys_calls", "cached_file_calls", "file_copies"])], "fault_enumeration",
    "one execution = one history with one placement of faults; non-trivial: at least one call failed or was cut short",
    "3..5 operations, up to 2..3 (quick) / 3..4 (thorough) faults, transfers of 0..7 bytes",
    assumptions=["system calls are replaced by a simulated kernel (--wrap) in which a failing close() releases the descriptor, as on Linux", "the destructor meets one failure only: two at once end any C++ program"], technique=FLT)

prop("S12", "Compression round-trips and damage never passes for data", """
    Data written to the compressing stream in any pieces, with any level and block size, is valid zlib data that decompresses to exactly what was written; the decompressing stream returns exactly that data in reads of any size,
    whatever pieces the source delivers, and stops at the end of the compressed data even when other data follows.
    Truncated or altered compressed data ends in a failure or an exception, never in the clean end of other data, and a failing sink is reported.""",
    "inputs fault_sequences", "payloads x compression levels x block sizes x ways to cut writes and reads up x every truncation and every flipped bit x failing sinks",
    "The suite compresses one buffer once and never sees damage or trailing data.",
    ["zlib.hpp"], [("zlib_writer", "zlib.hpp:class zlib_writer"), ("zlib_reader", "zlib.hpp:class zlib_reader")], ["bytes and state() at both ends; zlib itself as the reference"],
    [dict(src="zlib.cpp", hang=15), dict(src="zlib_far.cpp", harnesses=["zlib_write_far", "zlib_read_far"], hang=15)], "fault_enumeration",
    "one execution = one payload with one cutting or one damage; non-trivial: more than one piece, or damaged", "14 payloads of 0..300 bytes and all strings of up to 8/9 letters, blocks of 1..65536 bytes, one short transfer or failure; amounts to 2^33 with a stand-in for zlib", technique=FLT)

prop("S13", "Base64 and hexadecimal codecs invert each other in any pieces", """
    Encoding produces the standard text of the data and decoding returns exactly the encoded data, for every content and however data and text are divided between calls or stream operations; foreign characters and line breaks are skipped,
    lines are broken only between blocks, the end of the data is announced exactly when it is there, and size predictions are never exceeded.
    Stream failures and short transfers are reported and never cost or invent data.""",
    "inputs histories", "every one-, two- and three-byte block, every short text over the critical characters, every division into pieces, every failure of the stream below",
    "The suite encodes and decodes a few fixed strings in at most three pieces.",
    ["base64.hpp", "hex.hpp"], [("base64 sessions", "base64.hpp:class base64_enc / base64_dec"), ("base64 streams", "base64.hpp:class base64_writer / base64_reader"), ("hex", "hex.hpp")], ["encoded and decoded data, is_last, state() of the streams"],
    [dict(src="codecs.cpp")], "model_checking",
    "one execution = one input with one division into pieces; states = distinct inputs", "all 2^24 three-byte blocks; data of up to 8..12 bytes in all divisions; texts of up to 6/8 characters of 6", technique="exhaustive enumeration of inputs and of their divisions between calls on the real code, compared with reference codecs")

prop("S17", "A diagnostic file reports exactly the differences between its files", """
    Driving several files in step behaves as driving one as long as they agree, passing every operation to all of them with the same arguments; the first time any of them returns other data, a different count, position, size or state, the operation throws.
    With no files at all every operation fails cleanly.""",
    "histories fault_sequences", "every operation sequence up to the bound x every place where one of up to three files behaves differently",
    "The suite only drives files that agree.",
    ["stream.hpp"], [("diag_file", "stream.hpp:class diag_file")], ["results, exceptions and state() of diag_file, content of the files"],
    [dict(src="diag.cpp")], "model_checking",
    "one execution = one history; states = distinct (content, position) of the model; non-trivial: a file misbehaved", "3..4/5 operations of 16, 0..3 files, one deviation", technique=FLT)

prop("S18", "Every operating system handle is closed exactly once", """
    Through any history of copying, moving, assigning, closing and destroying handle-owning objects, with any of the duplications or closings failing, every handle has at most one owner, no object holds a handle that was closed,
    none is closed twice and none is left open when its owner is gone.""",
    "histories fault_sequences", "every sequence of operations on two objects up to the bound x every placement of up to the bounded number of failures",
    "The suite never copies or moves a handle and no duplication or closing fails.",
    ["system.hpp"], [("ownership", "system.hpp:class basic_sys_object")], ["handles held by the objects, handles open in the simulated kernel"],
    [dict(src="osio.cpp", link=WRAPS, harnesses=["handle_ownership", "socket_ownership"])], "model_checking",
    "one execution = one history; states = distinct (open, empty, absent) of both objects", "5/6 operations of 14, up to 2/3 failures",
    assumptions=["closing does not fail in a move assignment (it is noexcept)"], technique=FLT)

prop("S14", "A hash depends on the message only", """
    CRC-32, MD5 and SHA-1 give the standard value of every message, however long it is, whatever pieces it is handed over in and whatever the object hashed before it was cleared; a CRC continues from the value of what precedes.
    A hashing stream passes data through unchanged and hashes exactly the bytes that were transferred, whatever the stream below does.
    Hash values are equal exactly when all their bytes are, round-trip through a stream, and a truncated one is noticed.""",
    "inputs histories fault_sequences", "every message length up to the bound x every division into two and three pieces x reuse; every sequence of reads and writes with short transfers; lengths around 2^29 and 2^32 bytes",
    "The suite hashes one short text in one piece with each hash.",
    ["hash.hpp"], [("block_hash", "hash.hpp:class block_hash"), ("stream_hasher", "hash.hpp:class stream_hasher")], ["hash values against independent implementations of the standards, bytes and state() at both ends"],
    [dict(src="hash.cpp"), dict(src="hashlong.cpp", kind="plain", flags=["-O2"], harnesses=["md5_long", "sha1_long"], hang=600)], "model_checking",
    "one execution = one message, or one history of transfers; states = distinct lengths and divisions", "messages of 0..270/700 bytes, 4/5 pieces of 12 sizes, 4/5 transfers with up to 2 short ones, lengths 2^29-1..2^29+65 (thorough: to 2^32+2^29)", technique=SEQ)

prop("S15", "Tagged records are found, read and skipped exactly", """
    A record written to a file or stream has the announced layout, nested or not; a search finds the first record with the wanted ID at or after the position and before the limit, whatever the records in between contain, and leaves the position at its size field;
    reading a record yields its data, never bytes past it, and ends exactly behind its padding however much of it the reader takes.
    A record cut off by the end of the file and any failure to read, write or seek is reported rather than taken for a complete record.""",
    "histories inputs fault_sequences", "every sequence of records up to the bound, contents that look like records, every search start and limit, five widths of ID, size and alignment, every truncation point, every placement of up to two failures",
    "No test covers this header.",
    ["idrec.hpp"], [("record", "idrec.hpp:class record")], ["bytes in the file, results, position and state()"],
    [dict(src="idrec.cpp"), dict(src="far.cpp", harnesses=["records_far"])], "model_checking",
    "one execution = one content of the file (all searches in it) or one placement of failures; states = distinct contents", "0..4/5 records, payloads of 0..255 bytes, too long ones to 131072, records around 2^31, 2^32 and 2^40, trees of depth 2/3, up to 2/3 failures",
    assumptions=["the data of a record fits its size field"], technique=FLT)

prop("S16", "WAV chunks and cues are read, written and removed exactly", """
    Every WAV chunk written is read back equal, whatever the object read into held before; content, formats, lists and cues with their labels, notes and texts are found wherever they stand among other chunks and wherever the file is embedded,
    and removing cues copies everything else unchanged.
    A chunk that is cut off and any failure of either file is reported, and no damaged or truncated file causes an endless loop, an access out of bounds or an allocation the file does not account for.""",
    "inputs histories fault_sequences", "every sequence of chunks up to the bound from an alphabet of ten, nested and embedded; every order of cues with every combination of texts; every truncation point, every damage of one byte or field, every failing file operation",
    "No test covers this header.",
    ["wav.hpp", "idrec.hpp"], [("chunks", "wav.hpp:struct format"), ("cues", "wav.hpp:read_cues"), ("removal", "wav.hpp:remove_cues")], ["chunks and cues read, bytes written, results and positions, AddressSanitizer"],
    [dict(src="wav.cpp", hang=15)], "model_checking",
    "one execution = one file content with all searches in it, or one placement of damage or failure; states = distinct contents", "0..3/4 chunks of 10 in 4 forms, 0..3/4 cues, one byte or field damaged (thorough: two) to one of eight values, up to 1/2 failures", technique=FLT)
