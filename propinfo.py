"""What each check runs, for the evidence files and the manifest."""
COMMON_NOTE = ("Seeded search over simulated runs, not exhaustive: silence means no violation in the runs made. Every run is a pure function of "
               "(seed, property, run index) and is replayed bit for bit; memory safety is judged by AddressSanitizer/UBSan, hangs by a budget of control-flow edges. "
               "Trusts clang's sanitizers, zlib, bzip2, liblzma, iconv and the reference generators in sim/.")
NOT_APPLICABLE = {
    "C20": "a pure function of its two arguments: no schedule, clock, I/O, fault or history for a simulator to decide; it runs as a part of C03/C08/C11 (terminator and boundary search)",
    "C21": "pure functions of a byte string: no schedule, clock, I/O, fault or history for a simulator to decide",
}
STREAM_STUB = "the lowest stream is simulated (chunking, end signalling, seekability, failures); files come from a simulated disk"
ARCH_RULE = "An archive with known members is generated (tar, zip, cpio, ar, rpm, mail, SD file or OLE), possibly inside a stack of other streams, and listed by a client that reads, skips or ignores each entry at random."
INFO = {
    "C01": dict(technique="random stream stacks over a simulated upstream, position-by-position oracle",
                rule="It builds a random stack of library streams over a simulated base with known content and drives it with a random history of reads, skips and rewinds.",
                stub=STREAM_STUB, note="Every byte returned is compared with the known content at the reported position, through stacks up to 4 layers deep.",
                assumptions=["upstreams keep the contract of StreamBase (rewinding inside the last segment works, nothing more)", "contents up to about 200 kB"]),
    "C02": dict(technique="random stream stacks, limit and status state machine as invariants",
                rule="It builds a random stack, a quarter of them with an upstream that fails at a drawn offset, and makes up to 40 calls with limits around the chunk and content boundaries.",
                stub=STREAM_STUB, note="Minimum, maximum, end-of-stream status, size at the end and stickiness of failures are checked after every call.",
                assumptions=["a maximum below the minimum means no maximum, as the interface documents"]),
    "C03": dict(technique="random stream stacks over window-only upstreams, rewind invariants after every read",
                rule="It builds a random stack, mostly over an upstream that can rewind inside its last segment only and frees older segments at once, and rewinds into each segment just read.",
                stub=STREAM_STUB, note="Each rewind must succeed, the bytes behind the pointer stay valid (ASan) and unchanged, and the next read returns them again.",
                assumptions=[]),
    "C04": dict(technique="upstream read failures injected at drawn offsets below stream stacks and archive readers",
                rule="A stream stack (60%) or an archive listing (40%) runs over an upstream that fails at a drawn offset.",
                stub=STREAM_STUB, note="The top stream or the listing must end in the Error state with a message after a correct prefix.",
                assumptions=["failures are sticky: a failed upstream keeps failing"]),
    "C05": dict(technique="torn, cut, flipped and duplicated stored bytes below each decompressor",
                rule="Content is compressed (gzip, zlib, deflate, bzip2, lzma), the stored bytes are cut or damaged, and the decompressor is driven by a random history.",
                stub=STREAM_STUB, note="A cut must end in Error after a correct prefix; damage in checksummed formats must never give a complete stream with other content.",
                assumptions=["raw deflate and .lzma carry no checksum, so only cuts are decided for them", "an .lzma header with a known size may be complete before the last stored byte"]),
    "C06": dict(technique="file streams on a simulated faulty disk",
                rule="A file of each kind (buffered, unbuffered, mapped, caller's FILE) is opened on a simulated disk with a drawn fault plan (missing, unreadable, directory, EIO at an offset, EINTR, failing seek, fstat or mmap, short reads, unseekable, size reported as 0) and driven by a random history, partly through another layer.",
                stub="the disk below stdio, open, fstat, mmap, lseek (linker --wrap and fopencookie); stdio itself is the real glibc",
                note="Bytes, status, message and the table of open handles and mappings are checked; a read failure that stdio reported to the library must surface.",
                assumptions=["a mapping is a copy: SIGBUS on files truncated under a mapping is outside", "readahead failures that glibc hides inside fseek do not count as reported"], time_unit="disk operations"),
    "C07": dict(technique="files that grow and shrink at drawn disk operations and between calls",
                rule="A buffered or unbuffered file stream, partly below a sub-stream or event stream, is read while the simulated file changes size up to three times, during disk operations or between calls.",
                stub="the disk below stdio", note="Only the file's bytes, at most the announced size, a clean end exactly there, otherwise Error; bounded calls.",
                assumptions=["the bytes at an offset stay the same when a file is cut and grows again"], time_unit="disk operations"),
    "C08": dict(technique="generated archives listed over simulated upstreams with random partial consumption",
                rule=ARCH_RULE, stub=STREAM_STUB, note="Names, sizes and contents of all entries are compared with what was stored, in order, and the listing must end with Eof.",
                assumptions=["the generators in sim/archives.cpp define the well-formed shapes; other writers' dialects are outside"]),
    "C09": dict(technique="archives cut at a drawn byte, listed over simulated upstreams with random partial consumption",
                rule=ARCH_RULE + " The stored bytes are cut at a drawn position first.", stub=STREAM_STUB,
                note="Which entries may be seen, and which must fail, follows from the generator's offsets.", assumptions=["as C08"]),
    "C10": dict(technique="corrupted stored data below every reader, sanitizers and a progress budget as oracle",
                rule="A valid archive or compressed stream is damaged (flips, torn, duplicated, swapped, zeroed, cut regions, extreme header fields) and read by a random history with abandonment at any point.",
                stub=STREAM_STUB, note="No sanitizer report, no assertion, no abort, bounded work per call, finitely many entries.", assumptions=["inputs up to about 200 kB"]),
    "C11": dict(technique="sub-streams over simulated upstreams, boundary model as invariant",
                rule="It nests length- and terminator-bounded sub-streams over a simulated upstream, with moves beyond the end, and checks where the enclosing stream stands afterwards.",
                stub=STREAM_STUB, note="Contents, boundaries, the position of the enclosing stream, and errors for enclosing streams that end early.", assumptions=["the enclosing stream is not moved by others meanwhile"]),
    "C12": dict(technique="event streams with recording handlers over simulated upstreams, exactly-once model",
                rule="It puts an event-reporting stream over a random stack, drives it with a random history, and lets the handler decline at a drawn call.",
                stub=STREAM_STUB, note="The recorded calls must be the stream's bytes exactly once in order plus one end notification.", assumptions=[]),
    "C13": dict(technique="one byte string decoded under many drawn deliveries, compared with a one-shot conversion",
                rule="A byte string (valid, broken or cut off inside a character) in a drawn character set is converted by EncodingInputStream (to bytes of another set) or InputStreamReader (to wide characters) over a stream stack that splits it at drawn points and may fail.",
                stub=STREAM_STUB, note="Output, status and the place of an error must not depend on the splitting.", assumptions=["iconv of the sandbox's glibc is the reference for one-shot conversion"]),
    "C14": dict(technique="nested archives on a simulated disk, facade calls in random order against a tree model",
                rule="A tree of directories, plain files and nested archives (up to three levels, all formats, compressed layers) is put on a simulated disk and queried through ArchiveReader, DirLister and streams in drawn order, with listings and streams left half-read and several kept open at once.",
                stub="the disk below stdio, open, stat, mmap; real ArchiveReader, FileStreamOpener and providers", note="Existence, type, size, children and contents of every queried path are compared with the tree.",
                assumptions=["the generator defines the well-formed shapes", "one thread, any number of readers and listers over one facade"], time_unit="disk operations"),
    "C15": dict(technique="archives replaced, removed and failing on a simulated disk between and during facade calls",
                rule="As C14, while files are replaced, deleted, recreated or overwritten (new size or mtime) between calls and at drawn disk operations, and opens, stats and reads fail at drawn points.",
                stub="the disk below stdio, open, stat, mmap", note="Every answer must belong to a version of the file that existed during the call; open streams keep the version they were opened on; no stale answer survives the change; nothing crashes.",
                assumptions=["a replaced file differs in size or mtime; the type in a stat that races with a replacement may mix two versions"], time_unit="disk operations"),
    "C16": dict(technique="command streams on a simulated process kernel: seeded child scheduling, pipe sizes, interrupted and failing system calls",
                rule="Up to three command streams (some feeding each other) are created, driven and destroyed in drawn order. Their commands are simulated programs that copy, expand, reorder, ignore or stop reading their input, stall, close early, ignore SIGTERM or get killed, scheduled by draws at every system call; pipe, fork, exec, poll and reads and writes of pipes fail at drawn calls.",
                stub="the kernel (pipes, descriptors, processes, signals, poll) and the commands; the library's code between fork and exec runs for real in a forked process that records its calls",
                note="Bytes against the command's defined output, the input the command received, blocking for ever, SIGPIPE, foreign signals and descriptors, leftover descriptors and children.",
                assumptions=["commands end once their pipes are closed", "a non-zero exit status of the command is not a failure of the stream"], time_unit="kernel steps"),
    "C17": dict(technique="two or three threads under a seeded scheduler that preempts at drawn control-flow edges and static memory accesses",
                rule="Each run is a new process in which 2 or 3 threads list archives, read stream stacks, convert text, use archive facades or run commands, each on objects of its own, half the time all with the same facility. One thread runs at a time; the scheduler hands over at drawn control-flow edges, at loads and stores of static memory, and at locks.",
                stub=STREAM_STUB + "; the scheduler (real pthreads passing a baton); pthread_mutex, pthread_once and the guards of function-local statics",
                note="Every thread's results are compared with its own model, as if it were alone; deadlocks, sanitizer reports and left-over handles are violations.",
                assumptions=["each object is used by one thread only", "sequentially consistent memory: reorderings by the processor are not simulated", "shared state on the heap is reached by preemption at edges only"], time_unit="drawn delays"),
    "C18": dict(technique="listings under a simulated clock that jumps and drawn time zones, against a model of local time",
                rule="Zip, tar, ar, cpio and rpm archives with drawn stored times (many around changes of daylight saving, at field limits, or invalid) are listed directly and by path, again and again, while the clock jumps on every query, the zone changes and the application converts times of its own.",
                stub="time(), gettimeofday(), clock_gettime() and the disk below stdio; the C library's zone rules are real",
                note="Stored seconds must come out unchanged; DOS times must be a moment at which the zone's clocks show the stored time, and the same moment every time.",
                assumptions=["POSIX TZ strings in place of zone files", "zip: which of two moments with the same local time is meant is left open"], time_unit="seconds of clock movement"),
    "C19": dict(technique="scenarios of the other properties abandoned at a drawn call, leak, handle and use-after-free accounting",
                rule="A scenario of one of C01-C15 (streams, listings, files, facades, with failing or damaged inputs) is started and left at a drawn call of its client; everything is destroyed from there, a quarter of the time the inputs first. The run is repeated with the same choices to tell leaks from one-time initialisation.",
                stub=STREAM_STUB + "; the disk below stdio, open, stat, mmap",
                note="No live allocation, FILE, descriptor or mapping may be left, nothing may be released twice or touched after release (ASan), and the input must still be usable.",
                assumptions=["failing allocations are injected in C24 only"], time_unit="disk operations"),
    "C22": dict(technique="header checks, recognising factory and facade over drawn deliveries of the same stored bytes",
                rule="Bytes of a drawn format (each archive and compression format, plain text, noise; a third nearly the format, with a flipped bit) are given to every header check in drawn lengths, to the factory over a drawn stream stack, sometimes in the middle of an enclosing stream, and to two facades whose openers deliver them differently.",
                stub=STREAM_STUB, note="The answers must agree with the format's signature and with each other, and what follows must be the content from the start, byte by byte.",
                assumptions=["a mail with bytes above 127 among its first 1024 is not recognised, by design", "cpio and OLE are not recognised by the facade, by design"]),
    "C23": dict(technique="sequences of header values decoded by one reader over drawn deliveries, against the text they were made from",
                rule="A mail with up to eight header fields in drawn order, spelling, folding, encodings and 24 character sets, some of them damaged or broken off inside a shift state, is read over a drawn stream stack.",
                stub=STREAM_STUB, note="Every accessor is compared with the original text; values after a damaged one must not suffer; converters opened must be closed.",
                assumptions=["what a damaged value itself becomes is left open", "iconv of the sandbox's glibc is the reference for one-shot conversion"]),
    "C24": dict(technique="allocations and codec set-up calls failing at drawn points below scenarios of the other properties and facade sessions",
                rule="A scenario of one of C01-C03, C06-C08, C11-C13, C16 or C23, or a facade session, runs while an allocation (operator new, malloc family, including the growth of strings), a codec or converter set-up or a decompression step made by the library fails at a drawn point, once or in a burst.",
                stub=STREAM_STUB + "; the library's calls of the allocator, zlib, bzip2 and iconv_open pass through the simulator (objcopy on the library's objects), which lets the drawn ones fail",
                note="The oracle of the scenario stays in force, except that a call may report the failure; after std::bad_alloc a facade must answer as if nothing had happened.",
                assumptions=["memory that a constructor or call interrupted by std::bad_alloc leaves behind is not judged", "allocations inside zlib and bzip2 are modelled by their documented error codes"], time_unit="disk operations"),
}
