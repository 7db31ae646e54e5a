#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L="lib/"; I="include/strigi/"
prop("C01", "A stream delivers exactly its content, however it is read and fed",
 "Reading any stream to its end - in memory, file, sub-stream, terminated sub-stream, event-reporting, decompressing, base64-decoding, or any nesting of these - yields exactly the bytes of its content, in order, with nothing lost, repeated or altered. This holds for every way the stream below splits its data into reads, and for every sequence of read, skip and in-range rewind calls by the client: the bytes returned after each call are those at the position the stream reports. A skip moves forward by exactly the count it returns, and moves by less than was asked only at the end of the stream.",
 ["inputs","schedules","histories","configurations"],
 "all contents, all stream stacks, all client call histories, all splittings and end-of-data signalling styles of the upstream stream",
 "The tests read a handful of fixed files with a fixed doubling pattern and one upstream (a real file); the splitting of upstream data and the interleaving of read/skip/reset that exposes buffer and boundary bugs is never varied.",
 [I+"bufferedstream.h",I+"streambuffer.h",I+"stringstream.h",L+"subinputstream.cpp",L+"stringterminatedsubstream.cpp",L+"dataeventinputstream.cpp",L+"gzipinputstream.cpp",L+"bz2inputstream.cpp",L+"lzmainputstream.cpp",L+"base64inputstream.cpp",L+"gzipcompressstream.cpp"],
 [("buffer window arithmetic", I+"bufferedstream.h read/reset/skip and streambuffer.h makeSpace/read"),
  ("position bookkeeping against the shared input", L+"subinputstream.cpp read/skip/reset"),
  ("carry of unconsumed compressed input between fills", L+"gzipinputstream.cpp, bz2inputstream.cpp, lzmainputstream.cpp fillBuffer")],
 ["bytes returned by read", "position()", "return value of skip"])
prop("C02", "Reads respect the requested limits and end-of-stream is final",
 "A successful read returns at least the requested minimum unless the end of the stream intervenes, and never more than the requested maximum when one is given. Once the end has been reached the status says so, the size is known and equals the position, and every further read reports end of stream until the client moves back; no call ever reports success with no data before the end. A stream that has failed keeps reporting failure and never resumes as if nothing had happened.",
 ["inputs","schedules","histories","configurations"],
 "all minimum/maximum pairs (including unlimited), all client call histories, all upstream splittings, all stream types, with and without upstream failures",
 "Unit tests pick a few min/max pairs on one file; the limit handling depends on where the internal buffer and the upstream chunk boundaries happen to fall.",
 [I+"streambase.h",I+"bufferedstream.h",I+"stringstream.h",L+"fileinputstream.cpp",L+"skippingfileinputstream.cpp",L+"mmapfileinputstream.cpp",L+"subinputstream.cpp",L+"stringterminatedsubstream.cpp"],
 [("min/max clamping", I+"bufferedstream.h writeToBuffer/read; "+L+"subinputstream.cpp read"),
  ("status transitions", "m_status updates in every read/reset/skip")],
 ["return value of read","status()","size()","position()"])
prop("C03", "Rewinding inside the last read segment always works and keeps the data",
 "After a successful read, moving the stream back to any position inside the segment just read succeeds, and the next read delivers the same bytes again. The data pointer returned by that read stays valid and unchanged across such a move. This holds through every layer of nested streams, including immediately after the end of the stream was reached.",
 ["schedules","histories","configurations"],
 "all read sizes, rewind targets and stream stacks, over upstreams that offer no more rewinding than the interface promises",
 "The tests rewind on seekable files where any rewind works; a layer that relies on more rewinding than its input promises, or invalidates the pointer, only fails on a minimal upstream at particular buffer states.",
 [I+"streambase.h",I+"bufferedstream.h",I+"streambuffer.h",L+"subinputstream.cpp",L+"stringterminatedsubstream.cpp",L+"dataeventinputstream.cpp"],
 [("rewind window in the buffer", I+"bufferedstream.h reset"),("pass-through of rewinds", L+"subinputstream.cpp reset, stringterminatedsubstream.cpp reset, dataeventinputstream.cpp reset")],
 ["return value of reset","contents behind the read pointer"])
prop("C04", "A failing input is reported as an error, never as a clean end",
 "If the stream below fails at any point, the stream or archive reader above it ends in the error state with a non-empty error message, rather than reporting a normal end of data or of the listing. Everything delivered before the failure is a correct prefix of the true content, and the process neither crashes nor loops.",
 ["fault_sequences","schedules","inputs","configurations"],
 "a read failure injected at every kind of position (start, header, middle, one byte before the end), for every stream and archive type, chunking and client history",
 "No unit test injects an input failure; error propagation is dozens of separate hand-written branches, each only reached when a failure lands inside that step.",
 [L+"subinputstream.cpp",L+"stringterminatedsubstream.cpp",L+"gzipinputstream.cpp",L+"bz2inputstream.cpp",L+"lzmainputstream.cpp",L+"base64inputstream.cpp",L+"encodinginputstream.cpp",L+"inputstreamreader.cpp",L+"tarinputstream.cpp",L+"zipinputstream.cpp",L+"cpioinputstream.cpp",L+"arinputstream.cpp",L+"rpminputstream.cpp",L+"mailinputstream.cpp",L+"sdfinputstream.cpp",L+"oleinputstream.cpp"],
 [("nread < -1 branches", "every read/fillBuffer/nextEntry that consumes an input stream")],
 ["status()","error()","bytes delivered before the failure"])
prop("C05", "Cut-off or damaged compressed data ends in an error",
 "Decompressing data that was cut off before its end marker never ends as a complete stream: the client gets an error after at most the correct prefix of the content. Damage inside formats that carry a checksum (gzip, zlib, bzip2) never results in a complete stream with content different from the original (unless what is left happens to be a complete file whose checksum fits), and a stored checksum or length that does not fit the content is an error; so is a .lzma stream that ends before the size it announces.",
 ["fault_sequences","inputs","schedules"],
 "every cut position and every flipped, dropped or duplicated stored byte, in each compression format, under every upstream splitting and client read pattern",
 "The tests decompress a few intact files; which branch notices the truncation depends on where the cut falls relative to the upstream chunk and output buffer boundaries.",
 [L+"gzipinputstream.cpp",L+"bz2inputstream.cpp",L+"lzmainputstream.cpp"],
 [("end-of-input inside a compressed member", "readFromStream in each decompressor"),("decoder result switch", "fillBuffer in each decompressor")],
 ["status() after the last read","bytes delivered"])
prop("C06", "File-backed streams tell a disk fault from the end of the file",
 "A stream over a file delivers the file's bytes exactly in spite of short reads, and answers a disk read or seek failure with an error state and a non-empty message, never with a clean end of stream or wrong bytes. Opening a missing or unreadable file yields a stream in the error state. Every file descriptor, file handle and mapping the stream opened is released exactly once when it is destroyed.",
 ["fault_sequences","histories","inputs","configurations"],
 "every open/seek/read/map failure position, short reads, unseekable files, and every client call history, for each of the three file stream kinds",
 "Real disks in the test environment never fail or return short reads, so none of the file-error branches has ever been executed by a test.",
 [L+"fileinputstream.cpp",L+"skippingfileinputstream.cpp",L+"mmapfileinputstream.cpp",L+"filestreamopener.cpp"],
 [("read/seek result checks", L+"fileinputstream.cpp open/fillBuffer; "+L+"skippingfileinputstream.cpp open/read/reset"),("map/open checks", L+"mmapfileinputstream.cpp constructor")],
 ["bytes, status(), error()","open handles after destruction"])
prop("C07", "A file that changes size while being read does no harm",
 "If a file grows or shrinks after a buffered or unbuffered file stream has opened it, the process neither crashes nor loops: the client sees a prefix of the file's bytes followed either by the end at the size announced or by an error. A stream never hands out more bytes than the size it announced, and one that ends cleanly has delivered exactly its announced size.",
 ["fault_sequences","schedules","histories"],
 "every moment of growth or truncation relative to the client's calls, for every change size, also through event-reporting and sub-stream layers",
 "Tests never change a file during a read; the window between determining the size and reading the data is invisible to them.",
 [L+"fileinputstream.cpp",L+"skippingfileinputstream.cpp",L+"dataeventinputstream.cpp",I+"bufferedstream.h"],
 [("size fixed at open", L+"fileinputstream.cpp open; "+L+"skippingfileinputstream.cpp open"),("longer-than-announced check", I+"bufferedstream.h read")],
 ["bytes, status(), size()"])
prop("C08", "Archive listings contain exactly the members, in order, with their bytes",
 "For a well-formed archive or container (tar, zip, cpio, ar, rpm, mail, SD file, OLE) the sequence of entries - name, size and content - is exactly what was stored, whichever part of each entry the client reads, skips or ignores before asking for the next. The listing does not depend on how the underlying stream splits its data, how it signals its end, or whether it can seek, and it ends with the end-of-data status. An entry stored with a compression method the reader does not know is an error, never wrong content.",
 ["inputs","schedules","histories","configurations"],
 "all archives of the supported shapes, all partial-consumption histories of entries, all upstream splittings, seekable or not, nested in other streams",
 "The tests list a few fixed archives from seekable files and read every entry fully or not at all; re-synchronising after a partly read entry under arbitrary upstream chunking is not exercised.",
 [L+"tarinputstream.cpp",L+"zipinputstream.cpp",L+"cpioinputstream.cpp",L+"arinputstream.cpp",L+"rpminputstream.cpp",L+"mailinputstream.cpp",L+"sdfinputstream.cpp",L+"oleinputstream.cpp"],
 [("skip the rest of the current entry", "nextEntry in each reader"),("header parsing from a bounded read", "readHeader/readFileInfo in each reader")],
 ["nextEntry(), entryInfo(), bytes of each entry, status()"])
prop("C09", "A cut-off archive never passes off a damaged member as complete",
 "Listing a tar, zip, cpio, ar or rpm archive that was cut off at any byte yields the entries that are still complete, at most followed by the one that was cut, and nothing else. The cut entry reports an error when it is read instead of a clean end, and a cut inside an entry of a tar, zip, cpio or ar archive makes the listing end in the error state even if the client does not read that entry. It never crashes or loops; mail and SD files, which do not record the size of their parts, may end at the cut.",
 ["fault_sequences","inputs","histories","schedules"],
 "every cut position, archive type, upstream splitting, partial-consumption history",
 "Only complete archives are in the test data, so every short-input branch of every archive reader is untested.",
 [L+"tarinputstream.cpp",L+"zipinputstream.cpp",L+"cpioinputstream.cpp",L+"arinputstream.cpp",L+"rpminputstream.cpp",L+"subinputstream.cpp"],
 [("premature end of a sized sub-stream", L+"subinputstream.cpp read/skip"),("short header checks", "readHeader/nextEntry in each reader")],
 ["entries seen, per-entry status, final status()"])
prop("C10", "No input, however corrupt, causes a crash, a bad access or a hang",
 "Whatever bytes the input consists of, every stream and archive reader - and the header recognisers - stays inside its buffers, does not abort, and answers every call after a bounded amount of work. A listing of arbitrary bytes ends after finitely many entries, in the end or the error state.",
 ["inputs","fault_sequences","histories","schedules"],
 "all byte strings, sampled as stored data with flipped, torn, duplicated, swapped, zeroed and cut regions, read through all stacks under all splittings and partial-consumption histories, with destruction at any point",
 "Test inputs are well-formed; memory safety on damaged ones depends on every length field and every chunk boundary.",
 [L+"oleinputstream.cpp",L+"tarinputstream.cpp",L+"cpioinputstream.cpp",L+"zipinputstream.cpp",L+"rpminputstream.cpp",L+"mailinputstream.cpp",L+"sdfinputstream.cpp",L+"listinginprogress.cpp",L+"lzmainputstream.cpp",L+"bz2inputstream.cpp"],
 [("length-field validation", "readHeader functions and OleInputStream::Private"),("bounded loops", "nextEntry in each reader")],
 ["absence of sanitizer reports, aborts and step-budget exhaustion"])
prop("C11", "A sub-stream never leaves its boundaries",
 "A sub-stream of a given length, or one ended by a terminator, exposes exactly the bytes between its start and its end, whatever sequence of reads, skips and moves is made, including moves beyond its end. After it has been consumed, the enclosing stream stands exactly behind it: at the first byte after the length, or after the terminator. If the enclosing stream ends before the declared length, the sub-stream reports an error.",
 ["inputs","histories","schedules","configurations"],
 "all lengths, terminators (including self-overlapping ones), contents, chunkings, histories, nestings",
 "Tests use one terminator in one text and fixed lengths; the terminator straddling an upstream chunk and moves past the end are not covered.",
 [L+"subinputstream.cpp",L+"stringterminatedsubstream.cpp",L+"kmpsearcher.cpp"],
 [("clamping to the remaining length", L+"subinputstream.cpp read/skip/reset"),("hold-back of a possible partial terminator", L+"stringterminatedsubstream.cpp read")],
 ["bytes, position(), size() of the sub-stream; position() of the enclosing stream"])
prop("C12", "Data events cover the stream exactly once, in order",
 "A handler that keeps accepting data is given every byte of the stream exactly once and in order by the time the client reaches the end, followed by exactly one end notification, made before the stream shows that its end is reached, however the client reads, skips, rewinds and re-reads. A handler that declines further data is never called with data again. No data event ever follows the end notification.",
 ["histories","schedules","inputs"],
 "all client histories with rewinds and forward moves, all chunkings, known and unknown sizes, handlers declining at any point",
 "One test reads once through a file; overlaps between rewound and new data are not exercised.",
 [L+"dataeventinputstream.cpp",I+"dataeventinputstream.h"],
 [("amount not yet reported", L+"dataeventinputstream.cpp read"),("single finish", L+"dataeventinputstream.cpp read/finish")],
 ["sequence of handler calls"])
prop("C13", "Character decoding does not depend on how the bytes arrive",
 "Converting a byte stream in a given character set to text yields the same text wherever the input is split, including inside a multi-byte character. An invalid or cut-off multi-byte sequence, an unknown character set and a failing input each end in the error state; text delivered before that is a correct prefix.",
 ["inputs","schedules","fault_sequences","histories","configurations"],
 "all texts in the supported character sets, all split points, read limits, truncation and corruption positions, output character set or wide characters",
 "Tests decode one file in one charset from a file stream; split multi-byte sequences appear only at particular buffer offsets.",
 [L+"encodinginputstream.cpp",L+"inputstreamreader.cpp"],
 [("carry of incomplete sequences", L+"encodinginputstream.cpp decode; "+L+"inputstreamreader.cpp decode")],
 ["decoded text","status()"])
prop("C14", "Reading through the archive facade equals direct extraction, in any order",
 "Opening, listing and querying paths inside (nested) archives on disk returns the same entries, attributes and bytes as the archives contain, for any order and interleaving of calls, for repeated and abandoned traversals, and however many streams and listings are alive at once. Asking for a path that does not exist fails without disturbing later calls, and an entry is never confused with another whose name it is a prefix of. If an archive has several files with one path, that path means the first of them in every answer; what lies behind the name of a file that comes before it cannot be opened and is not listed.",
 ["histories","inputs","configurations","schedules"],
 "all histories of opens, stats, listings and partial reads over all archive trees",
 "The test walks one fixed archive once; caching and position tracking across interleaved calls is history-dependent.",
 [L+"archivereader.cpp",L+"listinginprogress.cpp",L+"archiveentrycache.cpp",L+"substreamproviderprovider.cpp"],
 [("entry cache and partial listings", L+"archivereader.cpp, archiveentrycache.cpp"),("positioned provider", L+"archivereader.cpp positionedProvider")],
 ["results of openStream/stat/dirEntries"])
prop("C15", "Archives changing on disk never yield stale cached data or dangling state",
 "After an archive file on disk is replaced by one with a newer modification time, queries started afterwards reflect the new contents and never mix members of the old and the new version; listings and streams that were already open stay safe to use and destroy. Files that vanish or become unreadable make queries fail cleanly, and they work again once the file is back.",
 ["histories","fault_sequences","schedules"],
 "all interleavings of file replacement, removal and restoration with all client calls",
 "The tests never modify a file between calls.",
 [L+"archivereader.cpp",L+"archiveentrycache.cpp",L+"listinginprogress.cpp"],
 [("modification-time comparison", L+"archivereader.cpp localStat/stat"),("cache replacement", L+"archiveentrycache.cpp")],
 ["results of openStream/stat/dirEntries; memory safety"])
prop("C16", "Filtering through an external command loses nothing and never wedges",
 "A stream that runs a command delivers exactly the command's complete output and then ends, feeding it the complete input when there is one, for any pipe capacity, short transfer, interruption, scheduling of the child and relative speed of the two sides. A command that stops reading early is not a failure and does not disturb the application; a failed pipe, process creation or program start, and a failing input, are reported as an error. Destroying the stream at any point closes every descriptor it created and leaves no child behind.",
 ["schedules","fault_sequences","histories","crash_points"],
 "all interleavings of parent and child, pipe capacities, partial reads/writes, interrupted calls, child exits and failures at any point, early destruction",
 "The test runs trivially small commands; pipe-full, short-write and early-exit situations depend on kernel scheduling.",
 [L+"processinputstream.cpp"],
 [("pump input to the child", L+"processinputstream.cpp writeToPipe/fillBuffer"),("process setup and teardown", L+"processinputstream.cpp runCmd and destructor")],
 ["bytes, status(); simulated kernel's descriptor and child tables"])
prop("C17", "Streams used from different threads do not influence each other",
 "When different threads use different streams, listings and decoders, each obtains exactly the results it would obtain alone, for every interleaving of their steps, including the very first use of each facility. Several threads may also list and open through separate archive facade objects at the same time.",
 ["schedules","histories","inputs"],
 "all preemptive interleavings of several threads each running its own stream stack",
 "The thread tests start real threads on tiny inputs; the interleavings of first-use initialisation they reach are left to the operating system.",
 [L+"base64inputstream.cpp",L+"lzmainputstream.cpp",L+"processinputstream.cpp",L+"archivereader.cpp",L+"rpminputstream.cpp",L+"listinginprogress.cpp"],
 [("function-local and global tables", L+"base64inputstream.cpp initialize, lzmainputstream.cpp, rpminputstream.cpp")],
 ["per-thread results"])
prop("C18", "Entry timestamps depend only on the archive and the time zone",
 "The modification time reported for an entry is determined by the archive's bytes and the configured time zone: it is the stored time, the same on every run, whatever the current date, clock jumps during the listing, or listings done before.",
 ["schedules","inputs","configurations","histories"],
 "all stored times, time zones, current clock values and clock jumps between steps",
 "A test samples one date at one wall-clock time in one zone; daylight-saving dependence needs the clock in the other half of the year.",
 [L+"dostime.cpp",L+"zipinputstream.cpp",L+"tarinputstream.cpp",L+"cpioinputstream.cpp"],
 [("DOS time conversion", L+"dostime.cpp")],
 ["entryInfo().mtime"])
prop("C19", "Abandoning any stream or listing releases everything exactly once",
 "Destroying a stream, archive reader or facade object after any history - never used, mid-entry, mid-archive, after the end or after an error - releases all memory and handles it acquired exactly once, and never touches an input that it does not own after that input's last use. It never deletes its input.",
 ["histories","fault_sequences","crash_points","configurations"],
 "all stream and reader types, all points of abandonment, with and without input failures and damaged data",
 "Tests destroy objects after complete use; leaks and double releases sit on abandonment and error paths.",
 [L+"oleinputstream.cpp",L+"rpminputstream.cpp",L+"zipinputstream.cpp",L+"tarinputstream.cpp",L+"mailinputstream.cpp",L+"bz2inputstream.cpp",L+"lzmainputstream.cpp",L+"listinginprogress.cpp",L+"archivereader.cpp",I+"substreamprovider.h"],
 [("destructors", "every class")],
 ["live allocations, handles; sanitizer reports"])
# --- C20 and C21 are not applicable to this technique
prop("C20", "Substring search finds the first occurrence",
 "Searching a byte range for a query returns the first occurrence of the query, or nothing if there is none.",
 ["inputs"],"all queries and texts","The test searches for two strings in one text.",
 [L+"kmpsearcher.cpp"],[("failure table", L+"kmpsearcher.cpp preprocess/search")],["return value of search"])
prop("C21", "Text helpers classify and convert every byte string correctly",
 "UTF-8 validation accepts exactly the well-formed strings and reports how many bytes are missing or where the damage is, line-end conversion maps every line-end style to a single newline, and fixed-width integers are read in the stated byte order and width.",
 ["inputs"],"all byte strings","Only a handful of strings are tested.",
 [L+"textutils.cpp",I+"textutils.h"],[("byte classification", L+"textutils.cpp")],["return values"])
prop("C22", "Formats are recognised the same however the leading bytes arrive",
 "A stream is recognised as the format it has by every header check given enough leading bytes, by the recognising factory and by the archive facade, with the same answer however many more bytes are at hand and however the stream below delivers them. Recognising consumes nothing: afterwards the stream, or the reader made for it, delivers everything from the start.",
 ["inputs","schedules","configurations"],
 "all streams of every format and nearly of it, all deliveries of the leading bytes, streams that start in the middle of another",
 "Tests recognise one example per format, always from a file that delivers everything asked for.",
 [L+"substreamproviderprovider.cpp",L+"archivereader.cpp",L+"tarinputstream.cpp",L+"zipinputstream.cpp",L+"cpioinputstream.cpp",L+"arinputstream.cpp",L+"oleinputstream.cpp",L+"lzmainputstream.cpp",L+"mailinputstream.cpp",L+"sdfinputstream.cpp"],
 [("checkHeader", "static member of each reader"),("minimum read before checking", L+"substreamproviderprovider.cpp; "+L+"archivereader.cpp")],
 ["return value of checkHeader","type of the reader made","isArchive, stat and listings of the facade","bytes read afterwards"])
prop("C23", "Encoded mail header values decode to the text that was encoded",
 "A mail header value made of encoded words in any supported character set and of plain text decodes to the original text, whatever header values, valid or damaged, came before it in the same mail, and however the mail arrives. Folded lines are joined, and white space between encoded words is dropped; other text is returned as written.",
 ["inputs","histories","schedules"],
 "all sequences of header values, folded or not, over all character sets, damaged values before valid ones, deliveries of the mail",
 "Tests contain a few headers, each decoded by a new reader.",
 [L+"mailinputstream.cpp",L+"encodinginputstream.cpp"],[("encoded word parsing", L+"mailinputstream.cpp decodedHeaderValue"),("header lines", L+"mailinputstream.cpp readHeaderLine/handleHeaderLine")],["entry properties, subject(), to(), cc() and the other header accessors"])
prop("C24", "Failing allocations are reported and never change what is delivered",
 "When an allocation inside the library, or the set-up of the decompressor, compressor or character converter of a stream, fails, the failure is reported: the call ends with std::bad_alloc or the stream is in the Error state with a message. Everything delivered before and after is correct, the failure is never taken for the end of the data, nothing crashes, and all objects can be destroyed. An archive facade of which a call ended with std::bad_alloc answers later calls correctly.",
 ["fault_sequences","histories","inputs"],
 "all points at which an allocation or set-up call can fail, once or several times in a row, during any history of calls on streams, listings, commands and facades",
 "No test makes an allocation fail; the paths behind a failed allocation never run.",
 [I+"streambuffer.h",L+"gzipinputstream.cpp",L+"gzipcompressstream.cpp",L+"bz2inputstream.cpp",L+"lzmainputstream.cpp",L+"mailinputstream.cpp",L+"encodinginputstream.cpp",L+"inputstreamreader.cpp",L+"kmpsearcher.cpp",L+"skippingfileinputstream.cpp",L+"processinputstream.cpp",L+"listinginprogress.cpp",L+"archivereader.cpp"],
 [("buffer growth", I+"streambuffer.h setSize; "+L+"mailinputstream.cpp Decoder::decode; "+L+"kmpsearcher.cpp setQuery"),("codec set-up", L+"gzipinputstream.cpp, bz2inputstream.cpp, lzmainputstream.cpp"),("interrupted listing", L+"listinginprogress.cpp nextEntry")],
 ["std::bad_alloc","status(), error() and bytes of streams","answers of the facade after a failed call"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
